"""In-memory stand-in for the part of h5py a matrix product array can use.

Only the symbolic run uses it; the concrete runs of the same harness (witness
and replay) use the real h5py on files in a scratch directory.
"""
import types

import numpy as np

from . import arr as A


def _stored(value):
    """What h5py hands back for `value`: a copy with its data type."""
    if A.has_sym(value):
        return A.as_symarray(value).copy()
    a = np.array(value)
    if a.dtype == object:
        raise TypeError("Object dtype dtype('O') has no native HDF5 equivalent")
    return a


class Dataset(object):
    def __init__(self, value):
        self._value = _stored(value)

    shape = property(lambda self: self._value.shape)
    dtype = property(lambda self: self._value.dtype)
    ndim = property(lambda self: self._value.ndim)
    size = property(lambda self: self._value.size)

    def __getitem__(self, idx):
        r = self._value[idx] if idx != () else self._value
        return r.copy() if hasattr(r, 'copy') else r

    def __setitem__(self, idx, value):
        self._value[idx] = value

    def __array__(self, dtype=None):
        return np.asarray(self._value)

    def __len__(self):
        return self.shape[0]


class Attrs(object):
    def __init__(self):
        self._d = {}

    @staticmethod
    def _conv(v):
        if isinstance(v, (str, bytes)):
            return v
        if isinstance(v, bool):
            return np.bool_(v)
        a = _stored(v)
        return a[()] if a.ndim == 0 else a

    def __setitem__(self, k, v):
        self._d[k] = self._conv(v)

    def create(self, name, data, shape=None, dtype=None):
        self[name] = data
    modify = create

    def __getitem__(self, k):
        v = self._d[k]
        return v.copy() if isinstance(v, np.ndarray) else v

    def get(self, k, default=None):
        return self[k] if k in self._d else default

    def update(self, other=(), **kw):
        for k, v in dict(other, **kw).items():
            self[k] = v

    def __contains__(self, k):
        return k in self._d

    def __delitem__(self, k):
        del self._d[k]

    def __len__(self):
        return len(self._d)

    def __iter__(self):
        return iter(sorted(self._d))
    keys = __iter__

    def items(self):
        return [(k, self[k]) for k in self]


class Group(object):
    def __init__(self):
        self._d, self.attrs = {}, Attrs()
        self._open, self._mode = True, 'w'

    def _root(self):
        return self

    def _writable(self):
        r = self._root()
        if not r._open:
            raise ValueError('Not a location (invalid object ID)')
        if r._mode == 'r':
            raise ValueError('Unable to write (no write intent on file)')

    def _readable(self):
        if not self._root()._open:
            raise ValueError('Invalid location identifier')

    def _put(self, name, obj):
        self._writable()
        if not isinstance(name, str):
            raise TypeError('Accessing a group is done with bytes or str')
        if name in self._d:
            raise ValueError('Unable to create dataset (name already exists)')
        self._d[name] = obj
        return obj

    def __setitem__(self, name, value):
        self._put(name, value if isinstance(value, (Group, Dataset)) else Dataset(value))

    def create_dataset(self, name, shape=None, dtype=None, data=None, **kw):
        if data is None:
            data = np.zeros(shape, dtype or 'f4')
        return self._put(name, Dataset(data))

    def require_dataset(self, name, shape, dtype, data=None, **kw):
        return self._d[name] if name in self._d else self.create_dataset(name, shape, dtype, data)

    def create_group(self, name):
        g = _Sub(self)
        return self._put(name, g)

    def require_group(self, name):
        return self._d[name] if name in self._d else self.create_group(name)

    def __getitem__(self, name):
        self._readable()
        if not isinstance(name, str):
            raise TypeError('Accessing a group is done with bytes or str')
        if name not in self._d:
            raise KeyError("Unable to open object (object '%s' doesn't exist)" % name)
        got = self._d[name]
        if isinstance(got, _Sub):
            # a view which belongs to this handle of the file
            view = _Sub(self)
            view._d, view.attrs = got._d, got.attrs
            return view
        return got

    def __delitem__(self, name):
        self._writable()
        del self._d[name]

    def __contains__(self, name):
        return name in self._d

    def __len__(self):
        return len(self._d)

    def __iter__(self):
        return iter(sorted(self._d))      # h5py's default: by name
    keys = __iter__

    def get(self, name, default=None):
        return self[name] if name in self._d else default

    def values(self):
        return [self[k] for k in self]

    def items(self):
        return [(k, self[k]) for k in self]


class _Sub(Group):
    def __init__(self, parent):
        Group.__init__(self)
        self._parent = parent

    def _root(self):
        return self._parent._root()


def module():
    """A fresh module object standing for h5py."""
    files = {}
    h5 = types.ModuleType('h5py')

    class File(Group):
        def __init__(self, name, mode='r', **kw):
            Group.__init__(self)
            self._mode = 'r' if mode == 'r' else 'w'
            if mode in ('r', 'r+') and name not in files:
                raise OSError('Unable to open file (unable to open file: name = %r)' % name)
            if mode in ('w-', 'x') and name in files:
                raise OSError('Unable to create file (file exists)')
            if mode not in ('r', 'r+', 'a', 'w', 'w-', 'x'):
                raise ValueError('Invalid mode')
            if mode == 'w' or name not in files:
                files[name] = self
            else:
                self._d, self.attrs = files[name]._d, files[name].attrs

        def close(self):
            self._open = False

        def flush(self):
            pass

        def __enter__(self):
            return self

        def __exit__(self, *a):
            self.close()
    h5.File, h5.Group, h5.Dataset = File, Group, Dataset
    return h5
