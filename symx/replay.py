"""Replay a recorded counterexample on the unpatched code.

    python -m symx.replay evidence/replays/C01-0.json

exit 1 if the property is broken for the recorded input, 0 otherwise.
"""
import ast
import json
import sys

from . import worker


def main():
    with open(sys.argv[1]) as f:
        d = json.load(f)
    vals = {k: complex(*v) if isinstance(v, list) else v for k, v in d['values'].items()}
    r = worker.run_conc(d['property'], d['harness'], ast.literal_eval(d['params']),
                        vals, d['choices'], d['seed'])
    print(r)
    sys.exit(1 if r['outcome'] == 'broken' else 0)


if __name__ == '__main__':
    main()
