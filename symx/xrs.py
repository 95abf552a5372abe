"""xarray, multiprocessing and os as the command line tools see them: files are
entries of a table, data are arrays of symbolic values."""
import os as _os
import types

import numpy as np

from . import nps
from .core import EngineError
from . import mpstub

# numpy imports its printing code at the first use, which must not happen inside of the code under test
str(np.array(np.datetime64("2000-01-01"))), repr(np.zeros(2)), repr(np.array(None))

class Var:
    def __init__(self, dims, data, attrs=None, encoding=None):
        self.dims = (dims,) if isinstance(dims, str) else tuple(dims)
        if not (isinstance(data, np.ndarray) and data.dtype.kind == "M"):
            data = nps.asarr(data)
        self.arr = data
        self.attrs = dict(attrs or {})
        self.encoding = dict(encoding or {})
        if len(self.dims) != self.arr.ndim:
            raise ValueError("dimensions %s must have the same length as the number of data dimensions, ndim=%d" % (
                self.dims, self.arr.ndim))

    def copy(self):
        return Var(self.dims, self.arr.copy(), self.attrs, self.encoding)

    def transpose(self, *dims):
        dims = expand(dims, self.dims)
        return Var(dims, np.transpose(self.arr, [self.dims.index(d) for d in dims]), self.attrs, self.encoding)


def expand(dims, have):
    dims = [d for d in dims if d is Ellipsis or d in have]
    if not dims:
        return have[::-1]
    if Ellipsis in dims:
        i = dims.index(Ellipsis)
        rest = [d for d in have if d not in dims]
        dims = dims[:i] + rest + dims[i + 1:]
    if len(dims) != len(have):
        raise ValueError("dimensions do not match")
    return tuple(dims)


class Dt:
    def __init__(self, a):
        self.a = a

    def _get(self, f):
        a = np.asarray(self.a)
        o = np.array([f(str(x)) for x in a.reshape(-1)], dtype=int).reshape(a.shape)
        return DataArray(o)

    @property
    def year(self): return self._get(lambda s: int(s[:4]))

    @property
    def month(self): return self._get(lambda s: int(s[5:7]))

    @property
    def day(self): return self._get(lambda s: int(s[8:10]))


class DataArray:
    def __init__(self, data=None, coords=None, dims=None, name=None, attrs=None, encoding=None, _var=None, _ds=None):
        if _var is None:
            if not isinstance(data, np.ndarray):
                data = nps.asarr(data)
            if dims is None:
                dims = tuple(coords) if isinstance(coords, (dict, Coords)) else tuple(f"dim_{i}" for i in range(data.ndim))
            _var = Var(dims, data, attrs, encoding)
        d = self.__dict__
        d["_var"], d["_ds"], d["name"] = _var, _ds, name
        d["_cs"] = {}
        if coords is not None:
            if isinstance(coords, (list, tuple)):
                coords = {k: v for k, v in zip(_var.dims, coords)}
            for k in coords:
                v = coords[k]
                d["_cs"][k] = v._var if isinstance(v, DataArray) else Var((k,), v)
            for k, v in d["_cs"].items():
                for dim, n in zip(v.dims, v.arr.shape):
                    if dim in _var.dims and _var.arr.shape[_var.dims.index(dim)] != n:
                        raise ValueError(f"conflicting sizes for dimension {dim!r}")

    dims = property(lambda s: s._var.dims)
    shape = property(lambda s: s._var.arr.shape)
    ndim = property(lambda s: s._var.arr.ndim)
    size = property(lambda s: s._var.arr.size)
    dtype = property(lambda s: s._var.arr.dtype)
    attrs = property(lambda s: s._var.attrs)
    encoding = property(lambda s: s._var.encoding)
    variable = property(lambda s: s._var)
    dt = property(lambda s: Dt(s._var.arr))
    T = property(lambda s: s.transpose())

    @property
    def sizes(self):
        return dict(zip(self.dims, self.shape))

    @property
    def coords(self):
        if self._cs:
            return Coords(self._cs, self._ds)
        if self._ds is not None:
            return Coords({k: v for k, v in self._ds.vars.items() if k in self._ds.coord_names and set(v.dims) <= set(self.dims)},
                          self._ds)
        return Coords({}, None)

    def _get(self):
        return self._var.arr

    def _set(self, v):
        if not isinstance(v, np.ndarray):
            v = nps.asarr(v._var.arr if isinstance(v, DataArray) else v)
        if v.shape != self._var.arr.shape:
            raise ValueError("replacement data must match the Variable's shape")
        self._var.arr = v

    @property
    def values(self):
        # a dask array computes a new array each time, a loaded one hands out its own
        if self._ds is not None and self._ds.lazy:
            return self._var.arr.copy()
        return self._var.arr

    @values.setter
    def values(self, v): self._set(v)

    data = property(_get, _set)

    def to_numpy(self): return self.values
    def load(self, **k): return self
    def compute(self, **k): return DataArray(_var=self._var.copy(), name=self.name)
    def copy(self, deep=True): return DataArray(_var=self._var.copy(), name=self.name, _ds=self._ds)
    def _symx_array_(self): return self._var.arr
    def item(self): return nps.scal(self._var.arr.reshape(-1)[0:1].reshape(())) if self.size == 1 else _no("item")
    def __len__(self): return self.shape[0]
    def __int__(self): return int(nps.scal(self._var.arr.reshape(())))
    def __float__(self): return float(nps.scal(self._var.arr.reshape(())))
    def __bool__(self): return bool(nps.scal(self._var.arr.reshape(())))
    def min(self, *a, **k): return DataArray(nps.asarr(nps.F_min(self._var.arr)))
    def max(self, *a, **k): return DataArray(nps.asarr(nps.F_max(self._var.arr)))

    def __iter__(self):
        for i in range(len(self)):
            yield self[i]

    def __getitem__(self, i):
        if isinstance(i, str):
            return self.coords[i]
        if not isinstance(i, tuple):
            i = (i,)
        if Ellipsis in i:
            p = i.index(Ellipsis)
            i = i[:p] + (slice(None),) * (self.ndim - len(i) + 1) + i[p + 1:]
        i = tuple(nps.core.EX.concretize(x) if isinstance(x, nps.SymInt) else x for x in i)
        a = self._var.arr[i] if self._var.arr.dtype.kind == "M" else nps.raw(self._var.arr)[i]
        dims = [d for k, d in enumerate(self.dims) if k >= len(i) or isinstance(i[k], slice)]
        if not isinstance(a, np.ndarray):
            o = np.empty((), dtype=self._var.arr.dtype)
            o[()] = a
            a = o
        if a.dtype == object:
            a = nps.wrap(a, self._var.arr.sdt)
        return DataArray(_var=Var(dims, a, self.attrs, self.encoding), name=self.name)

    def isel(self, indexers=None, **k):
        k = dict(indexers or {}, **k)
        return self[tuple(k.get(d, slice(None)) for d in self.dims)]

    def transpose(self, *dims, **k):
        return DataArray(_var=self._var.transpose(*dims), name=self.name)

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        if n in self._var.attrs:
            return self._var.attrs[n]
        if self._ds is not None and n in self._ds.vars and n in self._ds.coord_names:
            return self._ds[n]
        if n in REAL_DA:
            raise EngineError(f"DataArray.{n} not modelled")
        raise AttributeError(f"'DataArray' object has no attribute '{n}'")

    def __setattr__(self, n, v):
        if n in ("values", "data"):
            self._set(v)
        elif n == "attrs":
            self._var.attrs = dict(v)
        elif n == "encoding":
            self._var.encoding = dict(v)
        elif n == "name":
            self.__dict__["name"] = v
        else:
            raise AttributeError(n)

    def _bin(op):
        def f(self, o):
            o = o._var.arr if isinstance(o, DataArray) else o
            return DataArray(_var=Var(self.dims, getattr(self._var.arr, op)(o)), name=self.name)
        return f
    for _o in ("add", "radd", "sub", "rsub", "mul", "rmul", "truediv", "rtruediv", "lt", "le", "gt", "ge", "eq", "ne"):
        locals()[f"__{_o}__"] = _bin(f"__{_o}__")
    __hash__ = None
    del _o, _bin


REAL_DA = set("""sel where fillna mean sum std dropna rename assign_coords expand_dims squeeze groupby resample rolling
astype isnull notnull to_dataset to_netcdf reindex interp stack unstack chunk chunks drop_vars equals identical broadcast_like
indexes nbytes persist argmin argmax clip cumsum diff shift roll sortby swap_dims to_pandas to_series to_dataframe""".split())


def _no(n):
    raise EngineError(n)


class Coords(dict):
    def __init__(self, vs, ds):
        super().__init__((k, DataArray(_var=v, name=k, _ds=ds)) for k, v in vs.items())


class Dataset:
    def __init__(self, data_vars=None, coords=None, attrs=None, _vars=None, _coords=(), lazy=False):
        d = self.__dict__
        d["vars"], d["coord_names"], d["attrs"], d["lazy"] = dict(_vars or {}), set(_coords), dict(attrs or {}), lazy
        d["encoding"] = {}
        for k in (coords or {}):
            v = coords[k]
            self.vars[k] = _asvar(k, v)
            self.coord_names.add(k)
        for k in (data_vars or {}):
            self[k] = data_vars[k]

    def _new(self, vs):
        return Dataset(attrs=self.attrs, _vars=vs, _coords=self.coord_names & set(vs), lazy=self.lazy)

    @property
    def sizes(self):
        s = {}
        for v in self.vars.values():
            s.update(zip(v.dims, v.arr.shape))
        return s

    dims = sizes
    variables = property(lambda s: {k: v for k, v in s.vars.items()})

    @property
    def coords(self):
        return Coords({k: v for k, v in self.vars.items() if k in self.coord_names}, self)

    @property
    def data_vars(self):
        return {k: DataArray(_var=v, name=k, _ds=self) for k, v in self.vars.items() if k not in self.coord_names}

    def __getitem__(self, k):
        if isinstance(k, (list, tuple)):
            need = set(k)
            dims = {d for n in k for d in self.vars[n].dims}
            return self._new({n: v for n, v in self.vars.items() if n in need or (n in self.coord_names and set(v.dims) <= dims)})
        if k not in self.vars:
            raise KeyError(f"No variable named {k!r}. Variables on the dataset include {list(self.vars)}")
        return DataArray(_var=self.vars[k], name=k, _ds=self)

    def __setitem__(self, k, v):
        v = _asvar(k, v)
        sizes = self.sizes
        for d, n in zip(v.dims, v.arr.shape):
            if d in sizes and sizes[d] != n:
                raise ValueError(f"conflicting sizes for dimension {d!r}: length {n} on {k!r} and length {sizes[d]}")
        self.vars[k] = v
        if v.dims == (k,):
            self.coord_names.add(k)

    def assign(self, variables=None, **k):
        r = self._new(self.vars)
        for n, v in dict(variables or {}, **k).items():
            r[n] = v(r) if callable(v) else v
        return r

    def __delitem__(self, k):
        del self.vars[k]

    def __contains__(self, k): return k in self.vars
    def __iter__(self): return iter(self.data_vars)
    def __len__(self): return len(self.data_vars)
    def keys(self): return list(self.data_vars)

    def drop_vars(self, names, errors="raise"):
        names = [names] if isinstance(names, str) else list(names)
        for n in names:
            if n not in self.vars and errors == "raise":
                raise ValueError(f"cannot be found: {n}")
        return self._new({k: v for k, v in self.vars.items() if k not in names})

    def transpose(self, *dims, missing_dims="raise"):
        have = set(self.sizes)
        for d in dims:
            if d is not Ellipsis and d not in have and missing_dims == "raise":
                raise ValueError(f"Dimensions {d} do not exist")
        return self._new({k: v.transpose(*[d for d in dims if d is Ellipsis or d in v.dims] or [...]) for k, v in self.vars.items()})

    def load(self, **k):
        self.__dict__["lazy"] = False
        return self

    def compute(self, **k):
        r = self.copy(deep=True)
        r.__dict__["lazy"] = False
        return r

    def chunk(self, *a, **k):
        r = self._new(self.vars)
        r.__dict__["lazy"] = True
        return r

    def copy(self, deep=False):
        return self._new({k: (v.copy() if deep else v) for k, v in self.vars.items()})

    def isel(self, indexers=None, **k):
        k = dict(indexers or {}, **k)
        return self._new({n: DataArray(_var=v, name=n).isel({d: i for d, i in k.items() if d in v.dims})._var
                          for n, v in self.vars.items()})

    def close(self): pass
    def __enter__(self): return self
    def __exit__(self, *a): return False

    def to_netcdf(self, path=None, *a, **k):
        if path is None:
            raise EngineError("to_netcdf without a path")
        FS[str(path)] = dict(vars={n: v.copy() for n, v in self.vars.items()}, coords=set(self.coord_names), attrs=dict(self.attrs))

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        if n in self.vars:
            return self[n]
        if n in self.attrs:
            return self.attrs[n]
        if n in REAL_DA or n in ("merge", "map", "info", "update", "assign_attrs", "set_coords", "reset_coords", "get"):
            raise EngineError(f"Dataset.{n} not modelled")
        raise AttributeError(f"'Dataset' object has no attribute '{n}'")

    def __setattr__(self, n, v):
        if n in ("attrs", "encoding"):
            self.__dict__[n] = dict(v)
        else:
            raise AttributeError(n)


def _asvar(k, v):
    if isinstance(v, DataArray):
        return v._var
    if isinstance(v, Var):
        return v
    if isinstance(v, tuple):
        return Var(*v)
    if isinstance(v, np.ndarray) or isinstance(v, (list, range)):
        return Var((k,), v)
    return Var((), v)


FS = {}


def open_dataset(path, chunks=None, **k):
    path = str(path)
    if path not in FS:
        raise FileNotFoundError(2, "No such file or directory", path)
    f = FS[path]
    return Dataset(attrs=f["attrs"], _vars={n: v.copy() for n, v in f["vars"].items()}, _coords=f["coords"],
                   lazy=chunks is not None)


def same_coord(a, b):
    if a.arr.shape != b.arr.shape:
        return False
    if a.arr.dtype.kind == "M" or b.arr.dtype.kind == "M":
        return bool(np.array_equal(np.asarray(a.arr), np.asarray(b.arr)))
    return bool(nps.F_array_equal(a.arr, b.arr))


def open_mfdataset(paths, chunks=None, join="outer", **k):
    if k.get("combine", "by_coords") != "by_coords" or set(k) - {"combine", "engine", "parallel", "lock"}:
        raise EngineError("open_mfdataset with %s" % sorted(k))
    if isinstance(paths, str):
        paths = [paths]
    ds = [open_dataset(p) for p in paths]
    if not ds:
        raise OSError("no files to open")
    vs, cs = {}, set()
    for d in ds:
        for n, v in d.vars.items():
            if n in vs and n in d.coord_names and n in cs:
                if join == "override":
                    if vs[n].arr.shape != v.arr.shape:
                        raise ValueError("cannot override indexes of different sizes")
                elif not same_coord(vs[n], v):
                    if join == "exact":
                        raise ValueError("indexes are not equal")
                    # the union of both, or what they have in common
                    raise ValueError("model: a join of unequal coordinates")
            elif n in vs and n not in d.coord_names and vs[n].arr.shape != v.arr.shape:
                raise ValueError("conflicting values for variable")
            vs.setdefault(n, v)
        cs |= d.coord_names
    return Dataset(attrs=ds[0].attrs, _vars=vs, _coords=cs, lazy=True)


def make_xarray():
    m = types.ModuleType("xarray")
    m.Dataset, m.DataArray, m.Variable = Dataset, DataArray, Var
    m.open_dataset, m.open_mfdataset, m.load_dataset = open_dataset, open_mfdataset, open_dataset
    return m


class Buf:
    def __init__(self, n):
        self.a = nps.F_zeros(n)

    def _symx_buffer_(self, dtype=float, count=-1, offset=0):
        if nps.sdt_of(dtype) != "f8" or count not in (-1, self.a.size) or offset:
            raise EngineError("frombuffer of another type")
        return self.a[:]

    def __len__(self): return self.a.size


class SharedArray:
    def __init__(self, typecode, size):
        if typecode not in ("d",):
            raise EngineError(f"shared array of type {typecode}")
        if not isinstance(size, (int, np.integer)):
            v = list(size)
            self.b = Buf(len(v))
            self.b.a[:] = v
        else:
            self.b = Buf(int(size))

    def get_obj(self): return self.b
    def get_lock(self): return self
    def __enter__(self): return self
    def __exit__(self, *a): return False
    def __len__(self): return len(self.b)

    def __getattr__(self, n):
        raise EngineError(f"multiprocessing.Array.{n}")


def make_mp(env):
    m = types.ModuleType("multiprocessing")
    m.cpu_count = lambda: env.cpus
    m.Array = lambda t, s, lock=True: SharedArray(t, s)
    m.Pool = lambda processes=None, initializer=None, initargs=(), maxtasksperchild=None: mpstub.Pool(
        env, processes, initializer, initargs)
    m.get_context = lambda *a: m
    m.RawArray = lambda t, s: SharedArray(t, s).b
    return m


def make_os():
    m = types.ModuleType("os")
    p = types.ModuleType("os.path")
    for n in ("join", "basename", "dirname", "splitext", "split", "abspath", "normpath", "expanduser", "sep"):
        setattr(p, n, getattr(_os.path, n))
    p.exists = p.isfile = lambda f: str(f) in FS
    m.path, m.sep, m.environ = p, "/", {}
    m.getpid = lambda: 1
    m.cpu_count = lambda: None

    def remove(f):
        if str(f) not in FS:
            raise FileNotFoundError(2, "No such file or directory", f)
        del FS[str(f)]
    m.remove = m.unlink = remove
    m.PathLike = _os.PathLike
    m.fspath = _os.fspath
    return m


ENV = None


def extra():
    """the modules of one run: no files yet"""
    global ENV
    FS.clear()
    ENV = mpstub.Env(4, "in order", False, lambda: [])
    return {"xarray": make_xarray(), "multiprocessing": make_mp(ENV), "os": make_os()}
