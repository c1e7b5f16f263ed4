"""A model of the part of h5py that hftools uses, holding symbolic arrays.

Only used while executing symbolically; every path is replayed with the real
h5py, so a difference between the model and h5py shows up as a replay that
disagrees."""
import types

import numpy as np

from .core import Unsupported
from .symnp import SymNdarray, array, asarr, base, is_lifted

STORE = {}


def _value(x):
    if isinstance(x, str):
        return x
    if isinstance(x, bytes):
        return np.bytes_(x)
    if isinstance(x, (list, tuple)):
        x = np.array(list(x))
    if isinstance(x, np.ndarray) and not is_lifted(x):
        x = np.array(base(x))
        if x.dtype.kind == 'U':
            raise TypeError("No conversion path for dtype: %r" % x.dtype)
        if x.ndim == 0:
            return x[()]
    return x


class Attrs(object):
    def __init__(self):
        self._d = {}

    def __setitem__(self, k, v):
        self._d[k] = _value(v)

    def __getitem__(self, k):
        if k not in self._d:
            raise KeyError("Can't open attribute (can't locate attribute: "
                           "%r)" % k)
        return self._d[k]

    def get(self, k, default=None):
        return self._d.get(k, default)

    def __contains__(self, k):
        return k in self._d

    def __iter__(self):
        return iter(sorted(self._d))

    def keys(self):
        return sorted(self._d)

    def items(self):
        return [(k, self._d[k]) for k in sorted(self._d)]

    def __delitem__(self, k):
        del self._d[k]


class DimProxy(object):
    def __init__(self):
        self.scales = []

    def attach_scale(self, ds):
        self.scales.append(ds)

    def __len__(self):
        return len(self.scales)

    def __getitem__(self, i):
        return self.scales[i]


class DimManager(object):
    def __init__(self, ds):
        self.ds = ds
        self.p = [DimProxy() for _ in ds.shape]

    def create_scale(self, ds, name=''):
        ds.attrs["CLASS"] = b"DIMENSION_SCALE"

    def __len__(self):
        return len(self.p)

    def __getitem__(self, i):
        return self.p[i]

    def __iter__(self):
        return iter(self.p)


def special_dtype(**kw):
    return np.dtype('O')


class Dataset(object):
    def __init__(self, name, data, maxshape=None):
        a = asarr(data)
        if a.dtype.kind == 'U':
            raise TypeError("No conversion path for dtype: %r" % a.dtype)
        if a.dtype.kind == 'M':
            raise TypeError("No conversion path for dtype: %r" % a.dtype)
        self.name = name
        self._a = array(a, copy=True)
        self.maxshape = tuple(a.shape if maxshape is None else maxshape)
        if len(self.maxshape) != a.ndim:
            raise ValueError("chunk / maxshape rank")
        self.chunked = maxshape is not None
        self.attrs = Attrs()
        self.dims = DimManager(self)

    @property
    def shape(self):
        return self._a.shape

    @property
    def ndim(self):
        return self._a.ndim

    @property
    def size(self):
        return self._a.size

    @property
    def dtype(self):
        return self._a.dtype

    def _out(self):
        a = array(self._a, copy=True)
        if a.ndim == 0 and not is_lifted(a):
            return base(a)[()]
        return a

    @property
    def value(self):
        return self._out()

    def __array__(self, dtype=None):
        return array(self._a, copy=True)

    def __getitem__(self, i):
        if i is Ellipsis:
            return array(self._a, copy=True)
        if isinstance(i, tuple) and i == ():
            return self._out()
        if isinstance(i, int) and i < 0 and self.chunked is None:
            raise Unsupported("h5py index")
        r = self._a[i]
        return array(r, copy=True) if isinstance(r, np.ndarray) else r

    def __setitem__(self, i, v):
        self._a[i] = v

    def __len__(self):
        return self.shape[0]

    def resize(self, size, axis=None):
        shape = list(self.shape)
        if axis is None:
            new = list(size)
        else:
            new = list(shape)
            new[axis] = size
        for k, (n, m) in enumerate(zip(new, self.maxshape)):
            if m is not None and n > m:
                raise ValueError("unable to set extend dataset")
        if not self.chunked:
            raise TypeError("Only chunked datasets can be resized")
        out = np.zeros(new, dtype=object)
        dt = base(self._a)
        part = tuple(slice(0, min(a, b)) for a, b in zip(shape, new))
        if dt.dtype.kind == 'O':
            out = np.empty(new, dtype=dt.dtype)
            out[...] = 0 if is_lifted(self._a) else ''
        else:
            out = np.zeros(new, dtype=dt.dtype)
        b = array(self._a, copy=True)
        o = out.view(SymNdarray)
        if out.size:
            o[part] = b[part]
        self._a = o


class Group(object):
    def __init__(self, name):
        self.name = name
        self._d = {}
        self.attrs = Attrs()

    def _where(self, key, make):
        g = self
        parts = [x for x in key.split("/") if x]
        for p in parts[:-1]:
            if p not in g._d:
                if not make:
                    raise KeyError("Unable to open object (component not "
                                   "found)")
                g._d[p] = Group(g.name.rstrip("/") + "/" + p)
            g = g._d[p]
        if not parts or not isinstance(g, Group):
            raise KeyError(key)
        return g, parts[-1]

    def create_group(self, key):
        g, k = self._where(key, True)
        if k in g._d:
            raise ValueError("Unable to create group (name already exists)")
        g._d[k] = Group(g.name.rstrip("/") + "/" + k)
        return g._d[k]

    def create_dataset(self, key, shape=None, dtype=None, data=None,
                       maxshape=None, compression=None, **kw):
        if shape is not None or dtype is not None or kw:
            raise Unsupported("h5py create_dataset options")
        g, k = self._where(key, True)
        if k in g._d:
            raise RuntimeError("Unable to create link (name already exists)")
        if compression and asarr(data).ndim == 0:
            raise TypeError("Scalar datasets don't support chunk/filter "
                            "options")
        g._d[k] = Dataset(g.name.rstrip("/") + "/" + k, data, maxshape)
        return g._d[k]

    def __getitem__(self, key):
        g, k = self._where(key, False)
        if k not in g._d:
            raise KeyError("Unable to open object (object %r doesn't exist)"
                           % key)
        return g._d[k]

    def __contains__(self, key):
        try:
            self[key]
        except KeyError:
            return False
        return True

    def __delitem__(self, key):
        g, k = self._where(key, False)
        del g._d[k]

    def __iter__(self):
        return iter(sorted(self._d))

    def __len__(self):
        return len(self._d)

    def keys(self):
        return sorted(self._d)

    def items(self):
        return [(k, self._d[k]) for k in sorted(self._d)]

    def values(self):
        return [self._d[k] for k in sorted(self._d)]

    def get(self, k, default=None):
        return self[k] if k in self else default


class File(Group):
    def __init__(self, name, mode=None, **kw):
        name = str(name)
        self.filename = name
        self.mode = mode
        if mode == "w":
            root = Group("/")
            STORE[name] = root
            with open(name, "wb") as f:     # something to find on disk
                f.write(b"\x89HDF\r\n\x1a\n")
        elif name in STORE:
            root = STORE[name]
        elif mode in ("a", None, "w-", "x"):
            root = STORE[name] = Group("/")
        else:
            raise IOError("Unable to open file (unable to open file: name "
                          "= %r)" % name)
        self.__dict__.update(root.__dict__)

    def close(self):
        pass

    def flush(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


def is_hdf5(name):
    return str(name) in STORE


H5PY = types.ModuleType('h5py')
H5PY.File, H5PY.Group, H5PY.Dataset = File, Group, Dataset
H5PY.special_dtype, H5PY.is_hdf5 = special_dtype, is_hdf5
H5PY.string_dtype = lambda *a, **k: np.dtype('O')
H5PY.__version__ = '2.10.0'
H5PY._store = STORE
