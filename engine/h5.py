"""In-memory model of the part of h5py that stores and restores named data.

Members of a group are listed in alphabetical order unless the group tracks creation order, stored data are
copies, values are converted to the stored type, and reading back yields what was stored."""
import types

import h5py
import numpy as np

from . import shims as H
from . import sym as S
from .sym import Sym, Unsupported

FILES = {}


def reset():
    FILES.clear()


def _snapshot(v):
    if isinstance(v, np.ndarray):
        return v.copy() if v.dtype != object else np.array([_snapshot(x) for x in v.ravel()] + [None], dtype=object)[:-1].reshape(v.shape)
    if isinstance(v, H.SymRecord):
        return H.SymRecord({k: _snapshot(x) for k, x in v.fields.items()}, v.dtype)
    return v


def _round(v, dt):
    """value converted to the scalar type dt"""
    if isinstance(v, str):
        return v.encode()
    if isinstance(v, (H.SymRecord, bytes)) or v is None:
        return v
    if dt.kind == "f" and dt.itemsize < 8:
        if isinstance(v, Sym) and v.is_const():
            return S.Sym.const(float(dt.type(float(v))))
        if isinstance(v, Sym):
            return S.uf("stored_as_%s" % dt.name, (v,))
        return dt.type(v)
    return H.cast_field(v, dt)


def _cast(data, dt):
    if dt is None:
        return data
    if dt.names or dt.subdtype is not None:
        if isinstance(data, H.SymRecord):
            if set(data.dtype.names) != set(dt.names):
                raise TypeError("no conversion path for dtype")
            return H.SymRecord({n: _cast(data.fields[n], dt[n]) for n in dt.names}, dt)
        if isinstance(data, np.ndarray) and data.dtype == object:
            out = np.empty(data.shape, dtype=object)
            for i in np.ndindex(*data.shape):
                out[i] = _cast(data[i], dt)
            return out
        return data
    if isinstance(data, np.ndarray):
        if data.dtype != object:
            if dt.kind == "O":
                return data
            return data.astype(dt)
        out = np.empty(data.shape, dtype=object)
        for i in np.ndindex(*data.shape):
            out[i] = _round(data[i], dt)
        return out
    return _round(data, dt)


def _dtype_of(data):
    if isinstance(data, H.SymRecord):
        return data.dtype
    if isinstance(data, np.ndarray) and data.dtype == object:
        f = data.ravel()
        if len(f) and isinstance(f[0], H.SymRecord):
            return f[0].dtype
        return np.dtype(float)
    if isinstance(data, Sym):
        return np.dtype(float)
    if isinstance(data, (str, bytes)):
        return np.dtype(object)
    return np.asarray(data).dtype


class Named:
    def __init__(self, dtype):
        self.dtype = dtype


class Dim:
    def __init__(self):
        self.label = ""
        self.scales = []

    def attach_scale(self, s):
        self.scales.append(s)


class Dims(list):
    def __getitem__(self, i):
        while len(self) <= i:
            self.append(Dim())
        return list.__getitem__(self, i)


class Dataset:
    def __init__(self, name, data, dtype):
        self.name = name
        self.attrs = {}
        self.dims = Dims()
        if isinstance(data, (list, tuple)) and H.has_sym(data):
            data = np.array(data, dtype=object)
        elif isinstance(data, (list, tuple)):
            data = np.asarray(data)
        self.dtype = dtype if dtype is not None else _dtype_of(data)
        self.data = _snapshot(_cast(data, self.dtype if dtype is not None else None))

    @property
    def shape(self):
        return getattr(self.data, "shape", ())

    @property
    def ndim(self):
        return len(self.shape)

    @property
    def size(self):
        return int(np.prod(self.shape))

    def __len__(self):
        return len(self.data)

    def make_scale(self, name=""):
        pass

    def asstr(self, *a):
        return self

    def __getitem__(self, k):
        d = self.data
        if isinstance(d, np.ndarray):
            if isinstance(k, str):
                if d.dtype == object:
                    out = np.empty(d.shape, dtype=object)
                    for i in np.ndindex(*d.shape):
                        out[i] = d[i][k]
                    return out
                return d[k].copy() if hasattr(d[k], "copy") else d[k]
            return _snapshot(d[k])
        if isinstance(k, str):
            return _snapshot(d[k])
        if k == () or k is Ellipsis:
            return d.encode() if isinstance(d, str) else _snapshot(d)
        raise Unsupported("dataset index %r" % (k,))

    def __setitem__(self, k, v):
        if k == () or k is Ellipsis or k == slice(None):
            self.data = _snapshot(_cast(v, self.dtype))
        else:
            raise Unsupported("partial write")

    def __iter__(self):
        return iter([self[i] for i in range(len(self.data))])


class Group:
    def __init__(self, name="/", track_order=False):
        self.name = name
        self.attrs = {}
        self.members = {}
        self.track = track_order

    def _path(self, name, make=True):
        if "/" not in name.strip("/"):
            return self, name.strip("/")
        head, tail = name.strip("/").split("/", 1)
        if head not in self.members:
            if not make:
                raise KeyError(name)
            self.members[head] = Group(head)
        return self.members[head]._path(tail, make)

    def create_group(self, name, track_order=None):
        g, n = self._path(name)
        if n in g.members:
            raise ValueError("Unable to create group (name already exists)")
        g.members[n] = Group(n, bool(track_order))
        return g.members[n]

    def require_group(self, name):
        g, n = self._path(name)
        if n not in g.members:
            g.members[n] = Group(n)
        return g.members[n]

    def create_dataset(self, name, shape=None, dtype=None, data=None, **k):
        g, n = self._path(name)
        if n in g.members:
            raise ValueError("Unable to create dataset (name already exists)")
        if isinstance(dtype, Named):
            dtype = dtype.dtype
        if data is None:
            data = np.zeros(shape or ())
        g.members[n] = Dataset(n, data, None if dtype is None else np.dtype(dtype))
        return g.members[n]

    def require_dataset(self, name, shape=None, dtype=None, **k):
        return self.create_dataset(name, shape, dtype, **k) if name not in self else self[name]

    def __setitem__(self, name, v):
        if isinstance(v, (np.dtype, type)):
            g, n = self._path(name)
            if n in g.members:
                raise OSError("name already exists")
            g.members[n] = Named(np.dtype(v))
        else:
            self.create_dataset(name, data=v)

    def __delitem__(self, name):
        g, n = self._path(name, False)
        del g.members[n]

    def __getitem__(self, name):
        if isinstance(name, bytes):
            name = name.decode()
        g, n = self._path(name, False)
        if n not in g.members:
            raise KeyError("Unable to open object (object %r doesn't exist)" % name)
        return g.members[n]

    def get(self, name, default=None):
        return self[name] if name in self else default

    def __contains__(self, name):
        try:
            self[name]
            return True
        except KeyError:
            return False

    def keys(self):
        ks = list(self.members)
        return ks if self.track else sorted(ks, key=lambda s: s.encode())

    def values(self):
        return [self.members[k] for k in self.keys()]

    def items(self):
        return [(k, self.members[k]) for k in self.keys()]

    def __iter__(self):
        return iter(self.keys())

    def __len__(self):
        return len(self.members)


class File(Group):
    def __init__(self, name, mode="r", track_order=None, **k):
        super().__init__("/", bool(track_order))
        key = name if isinstance(name, (str, bytes)) else id(name)
        mode = mode or "r"
        old = FILES.get(key)
        if mode in ("r", "r+"):
            if old is None:
                raise FileNotFoundError(str(name))
            self.members, self.attrs, self.track = old.members, old.attrs, old.track
        elif mode == "w" or old is None:
            pass
        elif mode in ("w-", "x"):
            raise FileExistsError(str(name))
        else:
            self.members, self.attrs, self.track = old.members, old.attrs, old.track
        self.filename, self.mode = name, mode
        FILES[key] = self
        self._keep = name

    def close(self):
        pass

    def flush(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass


def module():
    m = types.ModuleType("h5py")
    for k in dir(h5py):
        if not k.startswith("__"):
            setattr(m, k, getattr(h5py, k))
    m.File, m.Group, m.Dataset = File, Group, Dataset
    return m
