#!/opt/venv/bin/python
"""Write DESIGN.md: fixed text plus the bounds which the harness modules state."""
import importlib
import json
import os
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)

HEAD = '''# Deciding mpnum's semantic properties by symbolic execution and SMT

All 27 properties of `properties.jsonl` are decided with the studied technique:
the functions of `/repo/mpnum` are executed symbolically from their current
source, and an SMT solver (z3, `z3-new -in`, SMT-LIB 2) decides the goals for every
value of the inputs within stated bounds.  No property is listed as not applicable.

## 1. Method

`./check Cnn [quick|thorough]` runs `python -m symx.check` under the interpreter the
library needs (`/opt/venv/bin/python`, PyPy 3.9).  Nothing is cached between runs.

**Execution** (`symx/arr.py`, `symx/loader.py`, `symx/path.py`, `symx/stubs.py`).
mpnum is imported from the working tree.  A harness (`symx/props/cNN.py`) builds inputs for
one *configuration* - concrete shapes, ranks, canonical-form claims and argument forms -
whose tensor entries are symbolic: `SymArray` is an ndarray subclass whose elements are terms
of a hash-consed DAG (`symx/term.py`), and which implements the array functions with
numpy's meaning (shapes, broadcasting, views, in-place writes, dtype rules).  The library's own code
then runs unchanged on these arrays.  A branch on a symbolic value forks: both sides
are asked to the solver and every feasible path is followed.  Symbolic integers (samples, packed
values) have exact (modular where the dtype wraps) integer terms.

**Contracts.**  Code outside Python is replaced by arbitrary values constrained by its
documented contract only: QR (`A = QR`, `Q` an isometry), SVD (`A = U S V`, isometries, sorted
non-negative values), eigh/eigvalsh, inverse and pseudo-inverse, LU, eigensolver answers (any vector),
random generators (any draw), h5py (a store of exact copies).  A property shown this way holds for
whatever LAPACK, ARPACK or the generator returns as long as it obeys the contract.

**Decision** (`symx/decide.py`, `symx/smt.py`).  Each goal is negated and given to z3:
* polynomial identities: one query over the term DAG (complex variables and their conjugates as
  independent indeterminates, exact for polynomial identities);
* goals under hypotheses (isometries, decompositions): hypothesis instances are chosen by rewriting,
  the implication is decided by z3 in linear real arithmetic over monomials, so that the verdict never
  rests on the rewriting;
* comparisons, `ite`, inequalities, path conditions: nonlinear real arithmetic;
* integer goals: integer arithmetic.
`unsat` = the goal holds for every value of the entries in that configuration.

**Counterexamples.**  Everything else is only a candidate.  The model (or witness values when a model is
missing) is replayed with the same harness on the *unpatched* code with ordinary numpy (`ConcEnv`,
`symx/replay.py`).  Only a failure of that real run is a `VIOLATION`; its replay file is under `replay/`.
A goal that is neither proved nor refuted is printed as `INCONCLUSIVE`, is counted in
the evidence and does not change the exit status, as the property "held on everything explored".  On the unchanged
tree every configuration of the quick tier is decided except the two of the known finding.
Each configuration is also run once concretely with witness values, which guards the harness itself against vacuity.
Exit 2 (no verdict) is left for a tree that cannot be imported.

**What is judged.**  Goals speak about observable results: represented arrays, shapes, ranks, dtypes, reported
canonical forms, returned numbers, refused arguments, later values of operands.  Helper functions may be renamed,
inlined or split; a private function a harness refers to (few do) makes its configurations
inconclusive when it is missing, never violated.

**Arithmetic.**  Exact real/complex numbers stand for doubles; floating constants in the source are read as
the algebraic number they are closest to where that is meant (1/sqrt 2), otherwise as the exact double.  Rounding,
overflow and the accuracy of LAPACK are outside.  Concrete replays compare with a tolerance.

**Levels.**  `level` in MANIFEST.json is "other": bounded, but complete within the bounds.  "thorough" adds
configurations (more sites, larger dimensions and ranks, longer histories) and longer solver limits.

**Cost.**  Quick checks take 5 s - 140 s on 8 cores (all 27 together about 20 min); the most expensive are C10, C13
and C16.  Thorough checks take 1 - 15 minutes each.

**Why this reaches what tests cannot.**  The test suite draws a few random tensors with one shape per parameter, mostly uniform
ranks, from one canonical form, and compares to a tolerance.  Here the shapes are chosen to be unequal wherever the API
permits it, each configuration is decided for all entries including degenerate ones (zeros, rank-deficient,
sign changes that random Gaussian entries never hit), all outcomes of random generators and
decompositions are covered, and the canonical-form bookkeeping is decided as an inductive step over arbitrary starting claims.

## 2. The properties

For each: what is compared with what (the oracle), the bounds, and what lies outside.  "Dense" means the oracle is written
directly from the mathematical definition with plain loops/einsum over the dense symbolic array, independent of mpnum's code.
'''

P = {
'C01': 'from_array / from_array_global / from_kron followed by to_array / to_array_global, compared entry by entry with the given symbolic array; shape, ndims, ranks, len, size and dtype against the stored tensors. Needs the QR contract hypotheses of the factor extraction.',
'C02': 'All arithmetic operators, in-place forms, sumup with and without weights; oracle: the same expression on the dense arrays. Refusals (different lengths, non-scalar factors) must raise and leave the operands alone.',
'C03': 'dot, partialdot, localouter, chain, inject; oracle: contraction of the dense arrays with explicit index placement.',
'C04': 'inner, sandwich, inner_prod_mps; oracle: explicit sums, conjugating the first operand only.',
'C05': 'T, conj, adj, transpose, reshape, ravel, reverse, get/iteration over legs, sum, trace, partialtrace, diag; oracle: numpy on the dense symbolic array.',
'C06': 'group_sites, split_sites, leg2vleg/vleg2leg, split, prune, squeeze, pad; oracle: the rearranged dense array; also combinations and starting claims.',
'C07': 'Invariant: every claimed site is an isometry and claims do not overlap. (a) one replacement (`lt.update`, `lt[i] = `, slices, negative indices, each declared canonicalization) from every true claim - an inductive step, hence for histories of any length; (b) every operation which carries claims over, from every true claim; (c) histories of up to 3 operations.',
'C08': 'canonicalize and the keyword forms from every true claim to every target; oracle: same dense array, isometries, reported form at least the target, refused targets leave tensors and claims untouched.',
'C09': 'norm and normdist against sum |x|^2 of the dense array: norm >= 0 and norm^2 equals it.',
'C10': 'compress / compression (svd): rank bound, overlap = <orig, result> = |result|^2, true claims, no change without truncation, smallest rank for a relative error. False alarm corrected: the equality of overlap and squared norm is not promised for a user supplied randomised decomposition, where only rank, shape and claims are required. 5 and more sites only with rank bound 1.',
'C11': 'singularvals: for each bond a decomposition M = W diag(s) Z of the dense bipartition with isometric W, Z is exhibited from the run, so that the returned values are the singular values; sorted and non-negative.',
'C12': 'compress(method="var"): shape, rank bound, claims, overlap relation at the end of every sweep; exact reproduction when the window spans the chain. False alarm corrected: windows shorter than the chain are not required to reproduce the array.',
'C13': 'mps_to_pmps, mps_to_mpo, pmps_to_mpo, pmps_to_mps, pmps_dm_to_array, all reductions_* in every way of naming windows (start, width, stop, iterator), order of the yielded windows; oracle: dense partial trace.',
'C14': 'MPPovm.pmf, pmf_as_array (all implementations), expectations, embed, block, repeat, MPPovmList.pmf; oracle: tr(M rho) of dense symbolic elements and states (positivity is not needed by the identity).',
'C15': 'x/y/z/pauli_povm, concat, probability_map, linear_inversion_map, from_local_povm, elements of the MPPovm; sums of elements, positivity by exhibited vectors; pseudo-inverse through its contract.',
'C16': 'sample with "direct" and "cond": the random generator is a stub which records the requested distribution and returns every outcome; the product of the requested probabilities is the joint probability, for each outcome sequence; counts, dtype and packing of the result. Thresholds eps above some of the probabilities are included.',
'C17': 'pack_samples / unpack_samples are inverse for symbolic integers of the full range, est_pmf and est_pmf_from counts are exact; lists of measurements (members, unequal numbers). MPPovmList accepts MPPovm objects only (a plain MPArray is refused), as documented.',
'C18': 'lfun, est_lfun, lfun_from, est_lfun_from, est_pmf_from, match_elems of MPPovm and MPPovmList; oracle: the documented weighted sums, variances and sample counts. est_pmf_from is required only where all outcomes of `other` match (documented). Known finding: see section 4.',
'C19': 'special.sumup; deterministic decomposition: the exact weighted sum when the bound permits; otherwise and for randomised decompositions (every random matrix) the orthogonal projection onto the returned basis.',
'C20': 'linalg.eig and eig_sum: the eigensolver is a stub that receives the local operator; it is compared entry by entry with the dense operator restricted to the current state, which is observed through copies of the state whose window equals the initial guess v0; the answer is arbitrary; the returned state and value. The default solver is covered through a stand-in for scipy.sparse.linalg.eigsh. False alarm corrected: earlier the state was read off one particular copy.',
'C21': 'zero, eye, diagonal_mpa, random_mpa/mpo/mps/mpdo, random_local_ham; every draw symbolic; random arrays are judged by the result (shape, rank, Hermitian, psd via exhibited purification, normalised), not by the order of draws. norm(), trace() and the Haar unitary enter through contracts decided elsewhere.',
'C22': 'local_sum (also with slices and embeddings), regular_slices, full_rank; oracle: dense sum of padded terms.',
'C23': 'global_to_local, local_to_global, partial_trace, mkron, block_diag, matdot, truncated_svd, randomized_svd, project_nonneg.',
'C24': 'dump / load: symbolic runs use an in-memory stand-in with h5py semantics (copies on store), each configuration is also run on the real h5py in scratch directories which are removed.',
'C25': 'about 90 calls x in-place changes of operand or result: tensors, claims and represented values of everything else stay. False alarm corrected: reductions_pmps canonicalizes its operand on the way (value unchanged), so there only the represented value is required; QR-based reductions are bounded to 2 sites.',
'C26': 'mpo_cH = sparse_cH = sum of local terms; cXY terms; energy formula for n = 2, 6; equality with the smallest eigenvalue of the operator for n = 2. The last term acts on (first, last) spin in this order; |gamma| <= 1 for the energy.',
'C27': 'project_nonneg, project_pmf with symbolic values and tolerances: refusal conditions in both directions, result, in-place semantics.',
}

TAIL = '''
## 3. Repaired defects (`fix:` commits in /repo)

%(fixed)s

Commit 2c6c676 (weights of MPPovmList.est_lfun) was taken back by 051b1f9, see next section.

## 4. Known finding

`known_findings.json` lists one: **C18 / list_weights**. `MPPovmList.est_lfun(coeff, funs, samples, weights)` ignores `weights`
(it passes None on). Forwarding them is a one-line repair, but the existing test `test_mppovmlist_est_lfun_from` passes its `eps`
in the position of `weights` and then fails, so the repair is not possible with the suite unedited. The check prints the KNOWN-FINDING line
for this harness and this message only.

## 5. Planted changes

Each directory under `seeded/` was written from a property and the code, passes the existing tests and has a demonstration.
All are caught by the check of their property (quick tier).

%(seeds)s

Missed at first, and the strengthening: S06 (sampling threshold: only probabilities above eps were explored; C16 has `eps` configurations
now), S11 (sumup with a first site narrower than the rank; C19 has such shapes now), S12 (write-back of the solver: state
observation in C20), S15 (list members; C17 has `members`/`unequal`). Rejected ideas, as existing tests catch them: wrong embedding dimensions (C14), sample
counts (C18), complex diagonals (C21), injection next to the left neighbour (C03), negative axes of partialtrace (C05), claims of vleg2leg (C07),
norm with a two-site centre (C09), stale right environments (C12).

In addition, systematic mutants of all modules (operators, constants, conditions, dropped calls, swapped tuples; several hundred run so far)
are given to the checks of the properties that execute the mutated line. Survivors are equivalent (performance-only, unreachable,
symmetric arguments of a contraction, default arguments of private helpers) or led to new configurations.

## 6. Staying quiet

Four sets of behaviour-preserving rewrites (about 90 edits: loops rewritten, helpers inlined, einsum/tensordot/dot exchanged, operators expressed through each
other, `eig` expressed through `eig_sum`, other numpy spellings) were applied to copies; the tests pass and no check reports a violation. What the array model
did not know (einsum with ellipsis, adjoint of operators, ...) was added, so that nearly everything stays decided. A rewriting whose goals the
solver cannot finish gives INCONCLUSIVE and exit 0.

## 7. Limits

* Shapes, ranks and chain lengths are bounded (section 2); there is no induction over the length of the chain.
* Floating point effects, speed of convergence, accuracy of randomised algorithms and running time are outside.
* Convergence of the variational searches is not a property here; each local step and the returned result are.
* The solver's `unknown` is never read as success for a configuration: it is counted as inconclusive in the evidence.
'''


def fmt(b):
    if isinstance(b, dict):
        return '; '.join('%s %s' % (k, v) for k, v in b.items())
    return str(b)


def main():
    out = [HEAD]
    props = [json.loads(l) for l in open(HERE + '/properties.jsonl')]
    for p in props:
        m = importlib.import_module('symx.props.' + p['id'].lower())
        out.append('\n### %s %s\n\n%s\n\n*Bounds:* %s.\n\n*Outside:* %s.\n' % (
            p['id'], p['title'], P[p['id']], fmt(m.BOUNDS), fmt(m.OUTSIDE)))
    kf = json.load(open(HERE + '/known_findings.json'))
    fixed = '\n'.join('* ' + f[len('fixed: property='):] for f in kf['fixed'])
    rows = ['| change | property | needs | caught |', '|---|---|---|---|']
    for d in sorted(os.listdir(HERE + '/seeded')):
        me = json.load(open(HERE + '/seeded/' + d + '/meta.json'))
        rows.append('| %s | %s | %s | yes, `check %s` |' % (d, me['property'], str(me['needs']).replace('|', '/').replace('\n', ' '), me['property']))
    out.append(TAIL % {'fixed': fixed, 'seeds': '\n'.join(rows)})
    open(HERE + '/DESIGN.md', 'w').write(''.join(out))


main()
