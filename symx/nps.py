"""numpy as seen by the code under test: object arrays of symbolic scalars.

Structural operations (views, reshape, stacking ...) are numpy's own on object
arrays, so aliasing behaves as in the real program; arithmetic, comparisons,
reductions and masks go element by element through symx.core.
"""
import math
import types
import itertools

import numpy as np

from . import core
from .core import (SymF, SymInt, SymBool, tof, f_add, f_mul, f_div, f_sub, f_ite, f_lt, f_le, f_gt, f_ge, f_eq, f_ne,
                   f_isnan, f_neg, f_abs, f_pow, f_sqrt, f_log, f_exp, sb_and, sb_or, sb_not, isbool, isnum, NAN,
                   EngineError, bool_to_int, i2f, mkb)

KINDS = {"f8": np.dtype("float64"), "f4": np.dtype("float32"), "i8": np.dtype("int64"), "b": np.dtype("bool"),
         "O": np.dtype("object")}


class SymDtype:
    pass


def sdt_of(t):
    if t is None:
        return "f8"
    if isinstance(t, str) and t in KINDS:
        return t
    if t is float or t is SymF:
        return "f8"
    if t is int:
        return "i8"
    if t is bool:
        return "b"
    if t is object:
        return "O"
    d = np.dtype(getattr(t, "_real_", t))
    if d.kind == "f":
        return "f4" if d.itemsize < 8 else "f8"
    if d.kind in "iu":
        return "i8"
    if d.kind == "b":
        return "b"
    return "O"


def sdt_elem(x):
    if isinstance(x, SymBool) or isbool(x):
        return "b"
    if isinstance(x, SymInt) or (isinstance(x, (int, np.integer))):
        return "i8"
    if isinstance(x, (SymF, float, np.floating)):
        return "f8"
    return "O"


ORDER = ["b", "i8", "f4", "f8", "O"]


def promote(*s):
    return max(s, key=ORDER.index)


def is_symb(x):
    return isinstance(x, (SymF, SymInt, SymBool))


def cast(x, s):
    """element x as dtype s (numpy assignment casting)"""
    if s == "f8":
        if isinstance(x, (SymF, np.float64)):
            return x
        if isinstance(x, np.ndarray):
            if x.size == 1:
                return cast(x.reshape(-1)[0] if not isinstance(x, SymArray) else raw(x).reshape(-1)[0], s)
            raise ValueError("setting an array element with a sequence.")
        if x is None:
            return NAN
        if is_symb(x):
            return tof(x)
        return np.float64(x)
    if s == "i8":
        if isinstance(x, (SymInt,)):
            return x
        if isinstance(x, (SymF,)):
            return core.f2i(x)
        if isinstance(x, SymBool):
            return bool_to_int(x)
        if isinstance(x, (float, np.floating)):
            if math.isnan(x):
                raise ValueError("cannot convert float NaN to integer")
            return int(x)
        return int(x)
    if s == "b":
        if isinstance(x, SymBool):
            return x
        if is_symb(x):
            return mkb(core.bz(x), core.bsh(x))
        return bool(x)
    if s == "f4":
        if is_symb(x):
            if isinstance(x, SymF):
                # rounding to single precision is visible as an unknown value
                t, sh = core.uf("float32", [x], lambda v: v.astype(np.float32).astype(float))
                return core.mkf(t, x.nan, x.pinf, x.ninf, sh)
            return tof(x)
        return np.float64(np.float32(x))
    return x


class SymArray(np.ndarray):
    def __new__(cls, obj, sdt):
        a = np.asarray(obj, dtype=object).view(cls)
        a.sdt = sdt
        return a

    def __array_finalize__(self, obj):
        self.sdt = getattr(obj, "sdt", "f8")

    @property
    def dtype(self):
        return KINDS[self.sdt]

    @property
    def itemsize(self):
        return KINDS[self.sdt].itemsize

    def __reduce__(self):
        raise EngineError("pickle of symbolic array")

    # -- indexing
    def _key(self, key):
        if isinstance(key, tuple):
            return tuple(self._k1(k) for k in key)
        return self._k1(key)

    def _k1(self, k):
        if isinstance(k, SymArray):
            r = raw(k)
            if k.sdt == "b":
                if any(isinstance(e, SymBool) for e in r.flat):
                    return _SymMask(k)
                return r.astype(bool)
            if k.sdt == "i8":
                return np.array([int(core.EX.concretize(e) if isinstance(e, SymInt) else e) for e in r.flat],
                                dtype=int).reshape(r.shape)
            if r.size and k.sdt == "f8":
                raise IndexError("arrays used as indices must be of integer (or boolean) type")
            return r
        if isinstance(k, SymInt):
            return core.EX.concretize(k)
        if isinstance(k, SymBool):
            return bool(k)
        if isinstance(k, SymF):
            raise IndexError("only integers, slices (`:`), ellipsis (`...`), numpy.newaxis (`None`) and integer or "
                             "boolean arrays are valid indices")
        if isinstance(k, list):
            if any(is_symb(e) for e in k):
                return self._k1(asarr(k))
            return k
        if isinstance(k, slice):
            return slice(*[core.EX.concretize(v) if isinstance(v, SymInt) else v
                           for v in (k.start, k.stop, k.step)])
        return k

    def __getitem__(self, key):
        key = self._key(key)
        if isinstance(key, _SymMask):
            key = key.concretize()
        elif isinstance(key, tuple):
            key = tuple(k.concretize() if isinstance(k, _SymMask) else k for k in key)
        return rewrap(raw(self)[key], self.sdt)

    def __setitem__(self, key, val):
        key = self._key(key)
        base = raw(self)
        s = self.sdt
        if isinstance(key, tuple) and any(isinstance(k, _SymMask) for k in key):
            key = tuple(k.concretize() if isinstance(k, _SymMask) else k for k in key)
        if isinstance(key, _SymMask):
            m = raw(key.arr)
            if m.shape != base.shape[: m.ndim]:
                raise IndexError("boolean index did not match indexed array")
            v = raw(asarr(val)) if isinstance(val, (np.ndarray, list, tuple)) else None
            if v is not None and v.ndim > 0 and v.size > 1:
                key = key.concretize()
            else:
                if v is not None:
                    val = v.reshape(-1)[0] if v.size else NAN
                cv = cast(val, s)
                for idx in np.ndindex(m.shape):
                    if m.ndim == base.ndim:
                        base[idx] = s_ite(m[idx], cv, base[idx])
                    else:
                        sub = base[idx]
                        for j in np.ndindex(sub.shape):
                            sub[j] = s_ite(m[idx], cv, sub[j])
                return
        if is_symb(val) or np.isscalar(val) or val is None or isinstance(val, core.Fraction):
            v = cast(val, s)
            if isinstance(v, (np.float64,)) or is_symb(v) or isinstance(v, (int, bool)):
                tgt = base[key]
                if isinstance(tgt, np.ndarray):
                    tmp = np.empty((), dtype=object)
                    tmp[()] = v
                    base[key] = tmp
                else:
                    base[key] = v
                return
            base[key] = v
            return
        tgt = base[key]
        va = castarr(asarr(val), s)
        if not isinstance(tgt, np.ndarray):
            if va.size != 1:
                raise ValueError("setting an array element with a sequence.")
            base[key] = raw(va).reshape(-1)[0]
            return
        base[key] = raw(va)

    def __iter__(self):
        for i in range(self.shape[0]):
            yield self[i]

    def __contains__(self, x):
        return bool(F_any(apply2(s_eq, self, x, "b")))

    def __bool__(self):
        if self.size == 1:
            return bool(raw(self).reshape(-1)[0])
        if self.size == 0:
            return False
        raise ValueError("The truth value of an array with more than one element is ambiguous. "
                         "Use a.any() or a.all()")

    def __index__(self):
        if self.size == 1 and self.sdt == "i8":
            e = raw(self).reshape(-1)[0]
            return core.EX.concretize(e) if isinstance(e, SymInt) else int(e)
        raise TypeError("only integer scalar arrays can be converted to a scalar index")

    def __float__(self):
        if self.size == 1:
            return float(raw(self).reshape(-1)[0])
        raise TypeError("only length-1 arrays can be converted to Python scalars")

    def __int__(self):
        if self.size == 1:
            return int(raw(self).reshape(-1)[0])
        raise TypeError("only length-1 arrays can be converted to Python scalars")

    def __hash__(self):
        raise TypeError("unhashable type: 'numpy.ndarray'")

    def __repr__(self):
        return f"SymArray{self.shape}"

    __str__ = __repr__

    def __format__(self, spec):
        return repr(self)

    # -- methods
    def copy(self, order="C"):
        return wrap(raw(self).copy(), self.sdt)

    __copy__ = copy

    def __deepcopy__(self, memo):
        return self.copy()

    def flatten(self, order="C"):
        return wrap(raw(self).flatten(order), self.sdt)

    def astype(self, t, *a, copy=True, **k):
        s = sdt_of(t)
        if s == self.sdt and not copy:
            return self
        return castarr(self, s, copy=True)

    def view(self, *a, **k):
        if not a and not k:
            return wrap(raw(self)[...], self.sdt)
        if a and isinstance(a[0], type) and issubclass(a[0], np.ndarray):
            return np.ndarray.view(self, a[0]) if a[0] is np.ndarray else self
        raise EngineError("view with dtype")

    def item(self, *a):
        r = raw(self)
        if a:
            return r[a if len(a) > 1 else a[0]]
        if r.size != 1:
            raise ValueError("can only convert an array of size 1 to a Python scalar")
        return r.reshape(-1)[0]

    def tolist(self):
        return raw(self).tolist()

    def fill(self, v):
        self[...] = v

    def sum(self, axis=None, dtype=None, out=None, **k): return F_sum(self, axis, **k)
    def prod(self, axis=None, **k): return F_prod(self, axis, **k)
    def mean(self, axis=None, dtype=None, out=None, **k): return F_mean(self, axis, **k)
    def std(self, axis=None, ddof=0, **k): return F_std(self, axis, ddof=ddof)
    def var(self, axis=None, ddof=0, **k): return F_var(self, axis, ddof=ddof)
    def min(self, axis=None, out=None, **k): return F_min(self, axis, **k)
    def max(self, axis=None, out=None, **k): return F_max(self, axis, **k)
    def any(self, axis=None, out=None, **k): return F_any(self, axis, **k)
    def all(self, axis=None, out=None, **k): return F_all(self, axis, **k)
    def cumsum(self, axis=None, **k): return F_cumsum(self, axis)
    def clip(self, min=None, max=None, out=None, **k): return F_clip(self, min, max, out=out)
    def round(self, decimals=0, out=None): return apply1(lambda e: s_round(e, decimals), self, self.sdt)
    def argmax(self, axis=None, **k): return F_argmax(self, axis)
    def argmin(self, axis=None, **k): return F_argmin(self, axis)
    def nonzero(self): return F_nonzero(self)
    def dot(self, o): return F_dot(self, o)
    def take(self, i, axis=None, **k): return F_take(self, i, axis)
    def ptp(self, axis=None, **k): return F_max(self, axis) - F_min(self, axis)

    def sort(self, axis=-1, **k):
        r = raw(F_sort(self, axis))
        raw(self)[...] = r

    def argsort(self, axis=-1, **k): return F_argsort(self, axis)

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        return dispatch_ufunc(ufunc, method, inputs, kw)

    def __array_function__(self, func, types, args, kwargs):
        return dispatch_function(func, args, kwargs)


class _SymMask:
    """a boolean mask with symbolic entries"""

    def __init__(self, arr):
        self.arr = arr

    def concretize(self):
        r = raw(self.arr)
        out = np.empty(r.shape, dtype=bool)
        for idx in np.ndindex(r.shape):
            out[idx] = bool(r[idx])
        return out


# ------------------------------------------------------------------ conversions
def raw(a):
    return np.ndarray.view(a, np.ndarray) if isinstance(a, SymArray) else a


def wrap(o, sdt):
    a = np.ndarray.view(o, SymArray)
    a.sdt = sdt
    return a


def rewrap(o, sdt):
    return wrap(o, sdt) if isinstance(o, np.ndarray) else o


def _objarr(x):
    """plain ndarray -> object ndarray with np.float64 / int / bool elements"""
    o = np.empty(x.shape, dtype=object)
    k = x.dtype.kind
    f = np.float64 if k == "f" else int if k in "iu" else bool if k == "b" else (lambda v: v)
    for idx in np.ndindex(x.shape):
        o[idx] = f(x[idx])
    return o


def asarr(x, sdt=None):
    """anything array-like -> SymArray (no copy when it already is one)"""
    if isinstance(x, SymArray):
        return x if sdt is None or x.sdt == sdt else castarr(x, sdt)
    if isinstance(x, np.ndarray):
        if x.dtype == object:
            s = sdt or (promote(*[sdt_elem(e) for e in x.flat]) if x.size else "f8")
            return castarr(wrap(x.copy(), "O"), s)
        return castarr(wrap(_objarr(x), sdt_of(x.dtype)), sdt or sdt_of(x.dtype))
    if is_symb(x) or np.isscalar(x) or x is None:
        o = np.empty((), dtype=object)
        s = sdt or sdt_elem(x)
        o[()] = cast(x, s)
        return wrap(o, s)
    if isinstance(x, range):
        x = list(x)
    if isinstance(x, (list, tuple)):
        if len(x) == 0:
            return wrap(np.empty((0,), dtype=object), sdt or "f8")
        parts = [asarr(e) for e in x]
        shp = parts[0].shape
        if any(p.shape != shp for p in parts):
            raise ValueError("setting an array element with a sequence. The requested array has an inhomogeneous "
                             "shape")
        s = sdt or promote(*[p.sdt for p in parts])
        o = np.empty((len(parts),) + shp, dtype=object)
        for i, p in enumerate(parts):
            q = raw(castarr(p, s))
            if shp == ():
                o[i] = q[()]
            else:
                o[i, ...] = q
        return wrap(o, s)
    if hasattr(x, "_symx_array_"):
        return asarr(x._symx_array_(), sdt)
    if hasattr(x, "__iter__"):
        return asarr(list(x), sdt)
    o = np.empty((), dtype=object)
    o[()] = x
    return wrap(o, "O")


def castarr(a, s, copy=False):
    if a.sdt == s and not copy:
        return a
    r = raw(a)
    o = np.empty(r.shape, dtype=object)
    of, rf = o.reshape(-1), r.reshape(-1)
    for i in range(rf.size):
        of[i] = cast(rf[i], s)
    return wrap(o, s)


def scal(a):
    """0-d -> element"""
    if isinstance(a, np.ndarray) and a.ndim == 0:
        return raw(a)[()]
    return a


def isarr(x):
    return isinstance(x, (np.ndarray, list, tuple, range)) or hasattr(x, "_symx_array_")


def apply1(fn, a, sdt):
    if not isarr(a):
        return fn(a)
    r = raw(asarr(a))
    o = np.empty(r.shape, dtype=object)
    for idx in np.ndindex(r.shape):
        o[idx] = fn(r[idx])
    return scal(wrap(o, sdt))


def applyn(fn, args, sdt):
    if not any(isarr(a) for a in args):
        return fn(*args)
    rs = np.broadcast_arrays(*[raw(asarr(a)) for a in args])
    o = np.empty(rs[0].shape, dtype=object)
    for idx in np.ndindex(o.shape):
        o[idx] = fn(*[r[idx] for r in rs])
    return scal(wrap(o, sdt))


def apply2(fn, a, b, sdt):
    return applyn(fn, (a, b), sdt)


# ---------------------------------------------------------- scalar operations
def _int2(a, b):
    return isinstance(a, (SymInt, int, np.integer, SymBool, bool, np.bool_)) and \
        isinstance(b, (SymInt, int, np.integer, SymBool, bool, np.bool_))


def _toi(a):
    if isinstance(a, SymBool):
        return bool_to_int(a)
    if isinstance(a, SymInt):
        return a
    return int(a)


def s_add(a, b):
    if _int2(a, b):
        if (isbool(a) or isinstance(a, SymBool)) and (isbool(b) or isinstance(b, SymBool)):
            return sb_or(a, b)
        return _toi(a) + _toi(b)
    return f_add(a, b)


def s_sub(a, b):
    if _int2(a, b):
        return _toi(a) - _toi(b)
    return f_sub(a, b)


def s_mul(a, b):
    if _int2(a, b):
        if (isbool(a) or isinstance(a, SymBool)) and (isbool(b) or isinstance(b, SymBool)):
            return sb_and(a, b)
        return _toi(a) * _toi(b)
    return f_mul(a, b)


def s_div(a, b):
    return f_div(a, b)


def s_floordiv(a, b):
    if _int2(a, b):
        b = _toi(b)
        if isinstance(b, int) and b == 0:
            return 0
        return _toi(a) // b
    return core.f_floordiv(a, b)


def s_mod(a, b):
    if _int2(a, b):
        b = _toi(b)
        if isinstance(b, int) and b == 0:
            return 0
        return _toi(a) % b
    return core.f_mod(a, b)


def s_pow(a, b):
    if _int2(a, b):
        return _toi(a) ** _toi(b)
    return f_pow(a, b)


def s_neg(a):
    if isinstance(a, (SymInt, int, np.integer)):
        return -a
    return f_neg(a)


def s_abs(a):
    if isinstance(a, (SymInt, int, np.integer)):
        return abs(a)
    return f_abs(a)


def s_cmp(op, fop):
    def g(a, b):
        if _int2(a, b):
            r = op(_toi(a), _toi(b))
            return r
        if not (is_symb(a) or isnum(a) or isbool(a)) or not (is_symb(b) or isnum(b) or isbool(b)):
            return op(a, b)
        return fop(a, b)
    return g


import operator as _op
s_lt = s_cmp(_op.lt, f_lt)
s_le = s_cmp(_op.le, f_le)
s_gt = s_cmp(_op.gt, f_gt)
s_ge = s_cmp(_op.ge, f_ge)
s_eq = s_cmp(_op.eq, f_eq)
s_ne = s_cmp(_op.ne, f_ne)


def s_isnan(a):
    if isinstance(a, (SymInt, SymBool, int, bool, np.integer, np.bool_)):
        return False
    if a is None or isinstance(a, str):
        raise TypeError("ufunc 'isnan' not supported for the input types")
    return f_isnan(a)


def s_ite(c, a, b):
    if isbool(c):
        return a if c else b
    if isinstance(a, (SymBool, bool, np.bool_)) and isinstance(b, (SymBool, bool, np.bool_)):
        return mkb(core.b_ite(c.z, core.bz(a), core.bz(b)), np.where(c.sh, core.bsh(a), core.bsh(b)))
    if _int2(a, b):
        a, b = _toi(a), _toi(b)
        if isinstance(a, int) and isinstance(b, int) and a == b:
            return a
        ash = a.sh if isinstance(a, SymInt) else float(a)
        bsh = b.sh if isinstance(b, SymInt) else float(b)
        az = a.z if isinstance(a, SymInt) else core.z3.IntVal(a)
        bz_ = b.z if isinstance(b, SymInt) else core.z3.IntVal(b)
        da = a.dom if isinstance(a, SymInt) else (a, a)
        db = b.dom if isinstance(b, SymInt) else (b, b)
        dom = (min(da[0], db[0]), max(da[1], db[1])) if da and db else None
        return SymInt(core.z3.If(c.z, az, bz_), np.where(c.sh, ash, bsh), dom)
    return f_ite(c, a, b)


def s_max(a, b, nanmode="prop"):
    if _int2(a, b):
        return s_ite(s_ge(a, b), a, b)
    r = f_ite(f_ge(a, b), a, b)
    if nanmode == "prop":
        r = f_ite(f_isnan(a), a, f_ite(f_isnan(b), b, r))
    else:
        r = f_ite(f_isnan(a), b, f_ite(f_isnan(b), a, r))
    return tof(r)


def s_min(a, b, nanmode="prop"):
    if _int2(a, b):
        return s_ite(s_le(a, b), a, b)
    r = f_ite(f_le(a, b), a, b)
    if nanmode == "prop":
        r = f_ite(f_isnan(a), a, f_ite(f_isnan(b), b, r))
    else:
        r = f_ite(f_isnan(a), b, f_ite(f_isnan(b), a, r))
    return tof(r)


def s_clip(x, lo, hi):
    if lo is not None:
        x = s_max(x, lo)
    if hi is not None:
        x = s_min(x, hi)
    return x


def s_sign(a):
    if isinstance(a, (SymInt, int, np.integer)):
        return s_ite(a > 0, 1, s_ite(a < 0, -1, 0))
    return f_ite(f_isnan(a), NAN, f_ite(f_gt(a, 0.0), np.float64(1.0), f_ite(f_lt(a, 0.0), np.float64(-1.0),
                                                                            np.float64(0.0))))


def s_round(a, n=0):
    if isinstance(a, (SymInt, int)):
        return a
    if not is_symb(a):
        return np.round(a, n)
    p = 10.0 ** n
    x = f_mul(a, p)
    fl = core.f_floor(f_add(x, 0.5))
    # half to even
    half = f_eq(f_sub(fl, 0.5), x)
    odd = f_ne(core.f_mod(fl, 2.0), 0.0)
    return f_div(f_ite(sb_and(half, odd), f_sub(fl, 1.0), fl), p)


def s_log10(a):
    return f_log(a, "log10", np.log10)


def s_log2(a):
    return f_log(a, "log2", np.log2)


def s_log1p(a):
    return f_log(f_add(a, 1.0))


def s_deg2rad(a):
    if is_symb(a):
        return f_mul(a, math.pi / 180.0)
    return np.deg2rad(a)


def s_rad2deg(a):
    if is_symb(a):
        return f_mul(a, 180.0 / math.pi)
    return np.rad2deg(a)


def s_not(a):
    return sb_not(cast(a, "b"))


def s_land(a, b):
    return sb_and(cast(a, "b"), cast(b, "b"))


def s_lor(a, b):
    return sb_or(cast(a, "b"), cast(b, "b"))


def s_lxor(a, b):
    return s_lor(s_land(a, s_not(b)), s_land(b, s_not(a)))


def s_band(a, b):
    if (isinstance(a, SymBool) or isbool(a)) and (isinstance(b, SymBool) or isbool(b)):
        return sb_and(a, b)
    return int(a) & int(b)


def s_bor(a, b):
    if (isinstance(a, SymBool) or isbool(a)) and (isinstance(b, SymBool) or isbool(b)):
        return sb_or(a, b)
    return int(a) | int(b)


def s_bxor(a, b):
    if (isinstance(a, SymBool) or isbool(a)) and (isinstance(b, SymBool) or isbool(b)):
        return s_lxor(a, b)
    return int(a) ^ int(b)


def s_inv(a):
    if isinstance(a, SymBool) or isbool(a):
        return sb_not(a)
    return -1 - a


def s_square(a):
    return s_mul(a, a)


def s_fmod(a, b):
    return s_sub(a, s_mul(b, core.f_trunc(f_div(a, b))))


UF = {}


def _reg(u, fn, out="same"):
    UF[u] = (fn, out)


for u, fn in [(np.add, s_add), (np.subtract, s_sub), (np.multiply, s_mul), (np.floor_divide, s_floordiv),
              (np.remainder, s_mod), (np.negative, s_neg), (np.absolute, s_abs), (np.maximum, s_max),
              (np.minimum, s_min), (np.sign, s_sign), (np.power, s_pow), (np.square, s_square), (np.fmod, s_fmod),
              (np.float_power, lambda a, b: f_pow(a, b)), (np.positive, lambda a: a), (np.fabs, s_abs),
              (np.fmax, lambda a, b: s_max(a, b, "ign")), (np.fmin, lambda a, b: s_min(a, b, "ign")),
              (np.bitwise_and, s_band), (np.bitwise_or, s_bor), (np.bitwise_xor, s_bxor), (np.invert, s_inv),
              (np.conjugate, lambda a: a)]:
    _reg(u, fn)
for u, fn in [(np.true_divide, s_div), (np.sqrt, f_sqrt), (np.log, f_log), (np.log10, s_log10), (np.log2, s_log2),
              (np.log1p, s_log1p), (np.exp, f_exp), (np.sin, core.f_sin), (np.cos, core.f_cos), (np.tan, core.f_tan),
              (np.arccos, core.f_acos), (np.floor, core.f_floor), (np.ceil, core.f_ceil), (np.trunc, core.f_trunc),
              (np.rint, s_round), (np.deg2rad, s_deg2rad), (np.radians, s_deg2rad), (np.rad2deg, s_rad2deg),
              (np.degrees, s_rad2deg), (np.reciprocal, lambda a: f_div(1.0, a)),
              (np.cbrt, lambda a: f_pow(a, 1.0 / 3.0)),
              (np.expm1, lambda a: f_sub(f_exp(a), 1.0)), (np.hypot, lambda a, b: f_sqrt(f_add(f_mul(a, a), f_mul(b, b))))]:
    _reg(u, fn, "f8")
for u, fn in [(np.less, s_lt), (np.less_equal, s_le), (np.greater, s_gt), (np.greater_equal, s_ge), (np.equal, s_eq),
              (np.not_equal, s_ne), (np.isnan, s_isnan), (np.isinf, core.f_isinf), (np.isfinite, core.f_isfinite),
              (np.logical_and, s_land), (np.logical_or, s_lor), (np.logical_not, s_not), (np.logical_xor, s_lxor),
              (np.signbit, lambda a: s_lt(a, 0.0))]:
    _reg(u, fn, "b")


def _operand_sdt(x):
    if isinstance(x, SymArray):
        return x.sdt
    if isinstance(x, np.ndarray):
        return sdt_of(x.dtype)
    if isinstance(x, (list, tuple)):
        return asarr(x).sdt
    return sdt_elem(x)


def dispatch_ufunc(ufunc, method, inputs, kw):
    kw = dict(kw)
    out = kw.pop("out", None)
    if isinstance(out, tuple):
        out = out[0]
    where = kw.pop("where", True)
    if method == "__call__":
        if ufunc is np.divmod:
            return apply2(s_floordiv, *inputs, "f8"), apply2(s_mod, *inputs, "f8")
        if ufunc is np.matmul:
            return F_dot(*inputs)
        if ufunc not in UF:
            raise EngineError(f"numpy ufunc {ufunc} not modelled")
        fn, osdt = UF[ufunc]
        if osdt == "same":
            s = promote(*[_operand_sdt(i) for i in inputs])
            if s == "b" and ufunc in (np.subtract, np.negative):
                raise TypeError("numpy boolean subtract, the `-` operator, is not supported")
            if s == "O":
                s = "f8"
        else:
            s = osdt
        res = applyn(fn, inputs, s)
        if out is not None:
            if where is not True:
                tgt = raw(out)
                w = np.broadcast_to(raw(asarr(where)), tgt.shape)
                rr = np.broadcast_to(raw(asarr(res)), tgt.shape)
                for idx in np.ndindex(tgt.shape):
                    tgt[idx] = s_ite(w[idx], cast(rr[idx], out.sdt), tgt[idx])
                return out
            if isinstance(out, SymArray):
                if ORDER.index(s) > ORDER.index(out.sdt) and out.sdt in ("i8", "b") and \
                        s in ("f8", "f4"):
                    raise np.core._exceptions._UFuncOutputCastingError if False else TypeError(
                        f"Cannot cast ufunc '{ufunc.__name__}' output from dtype('float64') to dtype('int64')")
                out[...] = res
                return out
            raise EngineError("ufunc out= into a concrete array")
        if where is not True:
            raise EngineError("ufunc where= without out=")
        return res
    if method == "reduce":
        a = inputs[0]
        axis = kw.get("axis", 0)
        kd = kw.get("keepdims", False)
        m = {np.add: F_sum, np.multiply: F_prod, np.maximum: F_max, np.minimum: F_min, np.logical_and: F_all,
             np.logical_or: F_any}
        if ufunc in m:
            return m[ufunc](a, axis, keepdims=kd)
    if method == "accumulate" and ufunc is np.add:
        return F_cumsum(inputs[0], kw.get("axis", 0))
    if method == "outer":
        a, b = asarr(inputs[0]), asarr(inputs[1])
        return dispatch_ufunc(ufunc, "__call__", (a.reshape(a.shape + (1,) * b.ndim), b), {})
    raise EngineError(f"ufunc method {ufunc.__name__}.{method}")


def _unwrap(x):
    if isinstance(x, SymArray):
        return raw(x)
    if isinstance(x, (list,)):
        return [_unwrap(e) for e in x]
    if isinstance(x, tuple):
        return tuple(_unwrap(e) for e in x)
    return x


def _maxsdt(x, acc):
    if isinstance(x, (SymArray, np.ndarray)):
        acc.append(_operand_sdt(x))
    elif isinstance(x, (list, tuple)):
        for e in x:
            _maxsdt(e, acc)
    elif is_symb(x):
        acc.append(sdt_elem(x))
    return acc


def dispatch_function(func, args, kwargs):
    name = func.__name__
    f = FUNCS.get(name)
    if f is not None:
        return f(*args, **kwargs)
    if name in STRUCT:
        return struct_call(func, args, kwargs)
    raise EngineError(f"numpy function {name} not modelled")


# functions that only move elements around
STRUCT = set("""reshape ravel transpose moveaxis swapaxes squeeze expand_dims hstack vstack dstack column_stack
concatenate stack broadcast_to broadcast_arrays split array_split hsplit vsplit tile repeat roll flip fliplr flipud
rot90 atleast_1d atleast_2d atleast_3d delete insert take compress append rollaxis block resize diagonal diag
sliding_window_view ix_ trim_zeros row_stack triu tril""".split())


def struct_call(func, args, kwargs):
    acc = _maxsdt(args, [])
    for v in kwargs.values():
        _maxsdt(v, acc)
    s = promote(*acc) if acc else "f8"

    def prep(x, top=True):
        if isinstance(x, SymArray):
            return raw(x)
        if isinstance(x, np.ndarray):
            return _objarr(x) if x.dtype != object else x
        if isinstance(x, (list, tuple)):
            if any(isinstance(e, np.ndarray) or is_symb(e) or (isinstance(e, (list, tuple)) and any(is_symb(q) for q in e)) for e in x) and \
                    not all(isinstance(e, np.ndarray) for e in x):
                out = [raw(asarr(e)) if (isinstance(e, (np.ndarray, list, tuple)) or is_symb(e) or isinstance(e, float)) else e
                       for e in x]
                return type(x)(out)
            return type(x)(prep(e, False) for e in x)
        if is_symb(x):
            if isinstance(x, SymInt):
                return core.EX.concretize(x)
            return raw(asarr(x))
        return x
    res = func(*[prep(a) for a in args], **{k: prep(v) for k, v in kwargs.items()})

    def post(r):
        if isinstance(r, np.ndarray):
            if r.dtype == object:
                a = wrap(r, s)
                return castarr_inplace_ok(a, s)
            return r
        if isinstance(r, list):
            return [post(e) for e in r]
        if isinstance(r, tuple):
            return tuple(post(e) for e in r)
        return r
    return post(res)


def castarr_inplace_ok(a, s):
    r = raw(a)
    for e in r.flat:
        if (s == "f8" and not isinstance(e, (SymF, np.float64))):
            return castarr(a, s, copy=True)
    return a


# ------------------------------------------------------------------ reductions
def _axes(a, axis):
    if axis is None:
        return None
    if isinstance(axis, tuple):
        return tuple(x % a.ndim for x in axis)
    if not -a.ndim <= axis < a.ndim:
        raise np.exceptions.AxisError(axis, a.ndim) if hasattr(np, "exceptions") else ValueError("axis")
    return axis % a.ndim


def reduce_(fn, a, axis, sdt, keepdims=False):
    """fn(list of elements) -> element"""
    a = asarr(a)
    r = raw(a)
    axis = _axes(r, axis)
    if axis is None or r.ndim == 0:
        v = fn(list(r.reshape(-1)))
        if keepdims:
            o = np.empty((1,) * r.ndim, dtype=object)
            o[...] = v
            return wrap(o, sdt)
        return v
    if isinstance(axis, tuple):
        rest = [i for i in range(r.ndim) if i not in axis]
        t = np.transpose(r, rest + list(axis)).reshape([r.shape[i] for i in rest] + [-1])
        if not rest:
            return fn(list(t.reshape(-1)))
    else:
        t = np.moveaxis(r, axis, -1)
    o = np.empty(t.shape[:-1], dtype=object)
    for idx in np.ndindex(o.shape):
        o[idx] = fn(list(t[idx]))
    if keepdims:
        for ax in sorted(axis if isinstance(axis, tuple) else (axis,)):
            o = np.expand_dims(o, ax)
    return scal(wrap(o, sdt))


def _nums(xs):
    return [_toi(x) if isinstance(x, (SymBool, bool, np.bool_)) else x for x in xs]


def l_sum(xs, start=0.0):
    xs = _nums(xs)
    if not xs:
        return np.float64(0.0)
    if all(isinstance(x, (int, np.integer, SymInt)) for x in xs):
        return _isum(xs)
    return fsum_(xs)


def _isum(xs):
    c = sum(int(x) for x in xs if not isinstance(x, SymInt))
    sy = [x for x in xs if isinstance(x, SymInt)]
    if not sy:
        return int(c)
    z = core.z3.Sum(*[x.z for x in sy]) if len(sy) > 1 else sy[0].z
    if c:
        z = z + c
    sh = sum(x.sh for x in sy) + c
    dom = None
    if all(x.dom for x in sy):
        dom = (sum(x.dom[0] for x in sy) + c, sum(x.dom[1] for x in sy) + c)
    return SymInt(z, sh, dom)


def fsum_(xs):
    """sum of floats as one flat n-ary term"""
    xs = [tof(x) for x in xs]
    sy = [x for x in xs if isinstance(x, SymF)]
    cs = [x for x in xs if not isinstance(x, SymF)]
    c = np.float64(0.0)
    for x in cs:
        c = c + x
    if not sy:
        return c
    if len(sy) == 1:
        return f_add(sy[0], c) if cs else sy[0]
    if all(x.fin() for x in sy) and not math.isinf(c):
        nan = core.b_or(*[x.nan for x in sy]) if not math.isnan(c) else True
        if nan is True:
            return NAN
        terms = [x.v for x in sy]
        if c != 0:
            terms.append(core.rv(c))
        cases = None
        r = core.mkf(core.z3.Sum(*terms), nan, False, False, sum(x.sh for x in sy) + c, cases)
        return r
    r = sy[0]
    for x in sy[1:]:
        r = f_add(r, x)
    return f_add(r, c) if cs else r


def F_sum(a, axis=None, dtype=None, out=None, keepdims=False, initial=None, where=None):
    if not isarr(a) and not is_symb(a) and not np.isscalar(a):
        a = list(a)
    arr = asarr(a)
    if where is not None:
        arr = F_where(where, arr, 0.0 if arr.sdt == "f8" else 0)
    s = "i8" if arr.sdt in ("b", "i8") else "f8"
    r = reduce_(l_sum, arr, axis, s, keepdims)
    if initial is not None:
        r = r + initial
    if isinstance(r, np.float64) and s == "i8":
        r = int(r)
    return _toout(r, out)


def _toout(r, out):
    if out is not None:
        out[...] = r
        return out
    return r


def l_prod(xs):
    xs = _nums(xs)
    r = None
    for x in xs:
        r = x if r is None else s_mul(r, x)
    return 1.0 if r is None else r


def F_prod(a, axis=None, dtype=None, out=None, keepdims=False, **k):
    arr = asarr(a)
    return reduce_(l_prod, arr, axis, "i8" if arr.sdt in ("b", "i8") else "f8", keepdims)


def l_mean(xs):
    xs = _nums(xs)
    if not xs:
        return NAN
    return f_div(fsum_(xs), float(len(xs)))


def F_mean(a, axis=None, dtype=None, out=None, keepdims=False, where=None):
    if where is not None:
        raise EngineError("mean(where=)")
    return _toout(reduce_(l_mean, a, axis, "f8", keepdims), out)


def l_nanmean(xs):
    xs = [tof(x) for x in xs]
    if not xs:
        return NAN
    s = l_nansum(xs)
    cnt = _isum([bool_to_int(sb_not(f_isnan(x))) for x in xs])
    return f_div(s, i2f(cnt))


def l_nansum(xs):
    xs = [tof(x) for x in xs]
    return fsum_([f_ite(f_isnan(x), np.float64(0.0), x) for x in xs])


def F_nanmean(a, axis=None, dtype=None, out=None, keepdims=False, **k):
    return reduce_(l_nanmean, a, axis, "f8", keepdims)


def F_nansum(a, axis=None, dtype=None, out=None, keepdims=False, **k):
    return reduce_(l_nansum, a, axis, "f8", keepdims)


def l_var(ddof):
    def g(xs):
        m = l_mean(xs)
        return f_div(fsum_([f_mul(f_sub(x, m), f_sub(x, m)) for x in xs]), float(len(xs) - ddof))
    return g


def F_var(a, axis=None, dtype=None, out=None, ddof=0, keepdims=False, **k):
    return reduce_(l_var(ddof), a, axis, "f8", keepdims)


def F_std(a, axis=None, dtype=None, out=None, ddof=0, keepdims=False, **k):
    return reduce_(lambda xs: f_sqrt(l_var(ddof)(xs)), a, axis, "f8", keepdims)


def l_nanvar(ddof):
    def g(xs):
        xs = [tof(x) for x in xs]
        m = l_nanmean(xs)
        cnt = _isum([bool_to_int(sb_not(f_isnan(x))) for x in xs])
        sq = [f_ite(f_isnan(x), np.float64(0.0), f_mul(f_sub(x, m), f_sub(x, m))) for x in xs]
        return f_div(fsum_(sq), i2f(cnt - ddof))
    return g


def l_max(xs):
    if not xs:
        raise ValueError("zero-size array to reduction operation maximum which has no identity")
    r = xs[0]
    for x in xs[1:]:
        r = s_max(r, x)
    return r


def l_min(xs):
    if not xs:
        raise ValueError("zero-size array to reduction operation minimum which has no identity")
    r = xs[0]
    for x in xs[1:]:
        r = s_min(r, x)
    return r


def l_nanmax(xs):
    r = xs[0]
    for x in xs[1:]:
        r = s_max(r, x, "ign")
    return r


def l_nanmin(xs):
    r = xs[0]
    for x in xs[1:]:
        r = s_min(r, x, "ign")
    return r


def _same(a):
    return asarr(a).sdt


def F_max(a, axis=None, out=None, keepdims=False, **k): return reduce_(l_max, a, axis, _same(a), keepdims)
def F_min(a, axis=None, out=None, keepdims=False, **k): return reduce_(l_min, a, axis, _same(a), keepdims)
def F_nanmax(a, axis=None, out=None, keepdims=False, **k): return reduce_(l_nanmax, a, axis, _same(a), keepdims)
def F_nanmin(a, axis=None, out=None, keepdims=False, **k): return reduce_(l_nanmin, a, axis, _same(a), keepdims)


def l_any(xs):
    r = False
    bs = [cast(x, "b") for x in xs]
    zs = core.b_or(*[core.bz(b) for b in bs])
    if isinstance(zs, bool):
        return np.bool_(zs)
    sh = core._F
    for b in bs:
        sh = sh | core.bsh(b)
    return mkb(zs, sh)


def l_all(xs):
    bs = [cast(x, "b") for x in xs]
    zs = core.b_and(*[core.bz(b) for b in bs])
    if isinstance(zs, bool):
        return np.bool_(zs)
    sh = core._T
    for b in bs:
        sh = sh & core.bsh(b)
    return mkb(zs, sh)


def F_any(a, axis=None, out=None, keepdims=False, **k): return reduce_(l_any, a, axis, "b", keepdims)
def F_all(a, axis=None, out=None, keepdims=False, **k): return reduce_(l_all, a, axis, "b", keepdims)


def F_count_nonzero(a, axis=None, keepdims=False):
    return reduce_(lambda xs: _isum([bool_to_int(cast(x, "b")) for x in xs]), a, axis, "i8", keepdims)


def F_cumsum(a, axis=None, dtype=None, out=None):
    a = asarr(a)
    if axis is None:
        a = a.reshape(-1)
        axis = 0
    r = np.moveaxis(raw(a), axis, 0).copy()
    for i in range(1, r.shape[0]):
        for idx in np.ndindex(r.shape[1:]):
            r[(i,) + idx] = s_add(r[(i - 1,) + idx], r[(i,) + idx])
    return wrap(np.moveaxis(r, 0, axis), "i8" if a.sdt in ("b", "i8") else "f8")


def F_nancumsum(a, axis=None, **k):
    return F_cumsum(F_where(F_isnan(a), 0.0, a), axis)


def F_isnan(a, *r, **k):
    return dispatch_ufunc(np.isnan, "__call__", (a,) + r, k)


def F_clip(a, a_min=None, a_max=None, out=None, **k):
    a_min = k.get("min", a_min)
    a_max = k.get("max", a_max)
    s = promote(_operand_sdt(a), *[_operand_sdt(x) for x in (a_min, a_max) if x is not None])
    args = [a] + [x for x in (a_min, a_max) if x is not None]

    def f(x, *b):
        b = list(b)
        lo = b.pop(0) if a_min is not None else None
        hi = b.pop(0) if a_max is not None else None
        return s_clip(x, lo, hi)
    return _toout(applyn(f, args, s), out)


def F_where(c, *xy):
    if not xy:
        return F_nonzero(c)
    x, y = xy
    s = promote(_operand_sdt(x), _operand_sdt(y))
    return applyn(lambda k, p, q: s_ite(cast(k, "b"), cast(p, s), cast(q, s)), (c, x, y), s)


def F_nonzero(a):
    r = raw(castarr(asarr(a), "b"))
    m = np.empty(r.shape, dtype=bool)
    for idx in np.ndindex(r.shape):
        m[idx] = bool(r[idx])
    return np.nonzero(m)


def F_diff(a, n=1, axis=-1, **k):
    a = asarr(a)
    for _ in range(n):
        r = np.moveaxis(raw(a), axis, 0)
        hi, lo = r[1:], r[:-1]
        o = np.empty(hi.shape, dtype=object)
        for idx in np.ndindex(o.shape):
            o[idx] = s_sub(hi[idx], lo[idx])
        a = wrap(np.moveaxis(o, 0, axis), a.sdt)
    return a


def _cx_less(a, b):
    """b should come before a (nan last)"""
    return s_gt(a, b) if _int2(a, b) else sb_or(f_gt(a, b), sb_and(f_isnan(a), sb_not(f_isnan(b))))


def F_sort(a, axis=-1, kind=None, order=None, **k):
    a = asarr(a)
    if axis is None:
        a = a.flatten()
        axis = 0
    r = np.moveaxis(raw(a), axis, -1).copy()
    for idx in np.ndindex(r.shape[:-1]):
        xs = list(r[idx])
        r[idx] = _mkrow(sort_list(xs))
    return wrap(np.moveaxis(r, -1, axis).copy(), a.sdt)


def _mkrow(xs):
    o = np.empty((len(xs),), dtype=object)
    for i, x in enumerate(xs):
        o[i] = x
    return o


def sort_list(xs):
    if not any(is_symb(x) for x in xs):
        return list(np.sort(np.array(xs, dtype=float))) if not all(isinstance(x, int) for x in xs) else sorted(xs)
    xs = list(xs)
    miss = [x for x in xs if _sure_nan(x)]
    xs = [x for x in xs if not _sure_nan(x)]
    n = len(xs)
    for i in range(n):
        for j in range(n - 1 - i):
            sw = _implied(_cx_less(xs[j], xs[j + 1]))
            if isbool(sw):
                if sw:
                    xs[j], xs[j + 1] = xs[j + 1], xs[j]
                continue
            lo, hi = s_ite(sw, xs[j + 1], xs[j]), s_ite(sw, xs[j], xs[j + 1])
            xs[j], xs[j + 1] = lo, hi
    return xs + miss


def _sure_nan(x):
    if isinstance(x, SymF):
        return x.nan is True
    return isinstance(x, float) and x != x


def _implied(sb):
    """a truth value when the path already settles it"""
    if isbool(sb) or not isinstance(sb, SymBool):
        return sb
    if not sb.sh.any() and not core.EX.possible(sb.z):
        return False
    if sb.sh.all() and not core.EX.possible(core.z3.Not(sb.z)):
        return True
    return sb


def _fork_argsort(xs):
    out = []
    for i, x in enumerate(xs):
        k = len(out)
        while k > 0 and bool(_cx_less(xs[out[k - 1]], x)):
            k -= 1
        out.insert(k, i)
    return out


def F_argsort(a, axis=-1, **k):
    a = asarr(a)
    if a.ndim != 1:
        raise EngineError("argsort nd")
    return np.array(_fork_argsort(list(raw(a))), dtype=int)


def l_argmax(xs):
    b = 0
    for i in range(1, len(xs)):
        if bool(_or_nan_gt(xs[i], xs[b])):
            b = i
    return b


def _or_nan_gt(x, y):
    if _int2(x, y):
        return s_gt(x, y)
    return sb_or(f_gt(x, y), sb_and(f_isnan(x), sb_not(f_isnan(y))))


def l_argmin(xs):
    b = 0
    for i in range(1, len(xs)):
        x, y = xs[i], xs[b]
        c = s_lt(x, y) if _int2(x, y) else sb_or(f_lt(x, y), sb_and(f_isnan(x), sb_not(f_isnan(y))))
        if bool(c):
            b = i
    return b


def F_argmax(a, axis=None, **k): return reduce_(l_argmax, a, axis, "i8")
def F_argmin(a, axis=None, **k): return reduce_(l_argmin, a, axis, "i8")


def F_convolve(a, v, mode="full"):
    a, v = asarr(a), asarr(v)
    if a.ndim > 1 or v.ndim > 1:
        raise ValueError("object too deep for desired array")
    if v.size > a.size:
        a, v = v, a
    if a.size == 0:
        raise ValueError("a cannot be empty")
    if v.size == 0:
        raise ValueError("v cannot be empty")
    A, V = list(raw(a).reshape(-1)), list(raw(v).reshape(-1))
    n, m = len(A), len(V)
    full = []
    for k in range(n + m - 1):
        ts = [s_mul(A[k - j], V[j]) for j in range(m) if 0 <= k - j < n]
        full.append(l_sum(ts))
    if mode == "full":
        r = full
    elif mode == "valid":
        r = full[m - 1:n]
    else:
        st = (m - 1) // 2
        r = full[st:st + n]
    return asarr(r, promote(a.sdt, v.sdt))


def F_correlate(a, v, mode="valid"):
    return F_convolve(a, asarr(v)[::-1], mode)


def F_dot(a, b, out=None):
    a, b = asarr(a), asarr(b)
    s = promote(a.sdt, b.sdt)
    if a.ndim == 0 or b.ndim == 0:
        return a * b
    if a.ndim == 1 and b.ndim == 1:
        if a.size != b.size:
            raise ValueError("shapes not aligned")
        return l_sum([s_mul(x, y) for x, y in zip(raw(a), raw(b))])
    if a.ndim == 2 and b.ndim == 1:
        return asarr([F_dot(r, b) for r in a], s)
    if a.ndim == 1 and b.ndim == 2:
        return asarr([F_dot(a, c) for c in b.T], s)
    return asarr([[F_dot(r, c) for c in b.T] for r in a], s)


def F_pad(a, pad_width, mode="constant", **k):
    a = asarr(a)
    cv = k.get("constant_values", 0)
    if mode != "constant":
        o = np.pad(raw(a), pad_width, mode=mode, **k)
        return wrap(o, a.sdt)
    pw = np.broadcast_to(np.asarray(_conc(pad_width)), (a.ndim, 2)) if a.ndim else pad_width
    if (pw < 0).any():
        raise ValueError("index can't contain negative values")
    if isinstance(cv, (tuple, list, np.ndarray)):
        cvs = np.broadcast_to(np.asarray(cv, dtype=object), (a.ndim, 2))
    else:
        cvs = [[cv, cv]] * a.ndim
    cur = raw(a)
    for ax in range(a.ndim):
        b, e = int(pw[ax][0]), int(pw[ax][1])
        shp = list(cur.shape)
        shp[ax] += b + e
        o = np.empty(shp, dtype=object)
        sl = [slice(None)] * a.ndim
        if b:
            sl[ax] = slice(0, b)
            _fill(o[tuple(sl)], cast(cvs[ax][0], a.sdt))
        if e:
            sl[ax] = slice(shp[ax] - e, shp[ax])
            _fill(o[tuple(sl)], cast(cvs[ax][1], a.sdt))
        sl[ax] = slice(b, b + cur.shape[ax])
        o[tuple(sl)] = cur
        cur = o
    return wrap(cur if cur is not raw(a) else cur.copy(), a.sdt)


def _fill(v, x):
    for idx in np.ndindex(v.shape):
        v[idx] = x


def _conc(x):
    if isinstance(x, SymInt):
        return core.EX.concretize(x)
    if isinstance(x, (tuple, list)):
        return type(x)(_conc(e) for e in x)
    if isinstance(x, SymArray):
        return np.array(_conc(raw(x).tolist()))
    return x


def _shape(shape):
    shape = _conc(shape)
    if isinstance(shape, (int, np.integer)):
        return (int(shape),)
    if isinstance(shape, (float, SymF)):
        raise TypeError("'float' object cannot be interpreted as an integer")
    if isinstance(shape, np.ndarray):
        return tuple(int(v) for v in shape)
    out = []
    for v in shape:
        if isinstance(v, (float, SymF)):
            raise TypeError("'float' object cannot be interpreted as an integer")
        out.append(int(v))
    return tuple(out)


def full_(shape, v, sdt):
    shp = _shape(shape)
    o = np.empty(shp, dtype=object)
    e = cast(v, sdt)
    f = o.reshape(-1)
    for i in range(f.size):
        f[i] = e
    return wrap(o, sdt)


class _Uninit:
    pass


def F_full(shape, fill_value, dtype=None, order="C"):
    if isinstance(fill_value, (list, tuple, np.ndarray)):
        a = F_empty(shape, dtype or asarr(fill_value).sdt)
        a[...] = fill_value
        return a
    return full_(shape, fill_value, sdt_of(dtype) if dtype is not None else sdt_elem(fill_value))


def F_zeros(shape, dtype=float, order="C"): return full_(shape, 0.0 if sdt_of(dtype) != "b" else False, sdt_of(dtype))
def F_ones(shape, dtype=None, order="C"): return full_(shape, 1.0 if sdt_of(dtype) != "b" else True, sdt_of(dtype))


def F_empty(shape, dtype=float, order="C"):
    s = sdt_of(dtype)
    shp = _shape(shape)
    o = np.empty(shp, dtype=object)
    # uninitialised memory: an arbitrary value per element
    for idx in np.ndindex(shp):
        if s == "i8":
            o[idx] = SymInt(core.z3.Int(f"uninit!{id(o)}_{idx}"), np.full(core.K, 77.0))
        elif s == "b":
            o[idx] = False
        else:
            o[idx] = SymF(core.EX.fresh_real("uninit"), core.EX.fresh_bool("uninit"), False, False,
                          np.full(core.K, 1.2345e30))
    return wrap(o, s)


def _like(fn):
    def g(a, *args, dtype=None, shape=None, **k):
        a = asarr(a)
        return fn(a.shape if shape is None else shape, *args, dtype=dtype if dtype is not None else a.dtype)
    return g


def F_array(x, dtype=None, copy=True, ndmin=0, order=None, subok=False):
    a = asarr(x, None if dtype is None else sdt_of(dtype))
    if (a is x or isinstance(x, SymArray)) and copy:
        a = wrap(raw(a).copy(), a.sdt)
    while a.ndim < ndmin:
        a = a.reshape((1,) + a.shape)
    return a


def F_asarray(x, dtype=None, order=None, **k):
    return asarr(x, None if dtype is None else sdt_of(dtype))


def F_arange(*a, dtype=None, **k):
    r = np.arange(*[_conc(x) if isinstance(x, SymInt) else x for x in a])
    return asarr(r, None if dtype is None else sdt_of(dtype))


def F_linspace(*a, **k):
    return asarr(np.linspace(*a, **k))


def F_copyto(dst, src, casting="same_kind", where=True):
    if where is True:
        dst[...] = src
    else:
        m = np.broadcast_to(raw(asarr(where)), dst.shape)
        v = np.broadcast_to(raw(asarr(src)), dst.shape)
        d = raw(dst)
        for idx in np.ndindex(dst.shape):
            d[idx] = s_ite(cast(m[idx], "b"), cast(v[idx], dst.sdt), d[idx])


def F_putmask(a, mask, values):
    F_copyto(a, values, where=mask)


def F_place(arr, mask, vals):
    v = asarr(vals)
    if v.size == 1:
        F_copyto(arr, v.reshape(-1)[0], where=mask)
    else:
        raise EngineError("np.place")


def F_nan_to_num(x, copy=True, nan=0.0, posinf=None, neginf=None):
    def g(e):
        e = tof(e)
        r = f_ite(f_isnan(e), np.float64(nan), e)
        return r
    r = apply1(g, x, "f8")
    if not copy:
        x[...] = r
        return x
    return r


def F_isclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    def g(x, y):
        x, y = tof(x), tof(y)
        r = f_le(f_abs(f_sub(x, y)), f_add(atol, f_mul(rtol, f_abs(y))))
        r = sb_or(r, f_eq(x, y))
        if equal_nan:
            r = sb_or(r, sb_and(f_isnan(x), f_isnan(y)))
        return r
    return apply2(g, a, b, "b")


def F_allclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    return F_all(F_isclose(a, b, rtol, atol, equal_nan))


def F_array_equal(a, b, equal_nan=False):
    a, b = asarr(a), asarr(b)
    if a.shape != b.shape:
        return False
    if equal_nan:
        return F_all(apply2(lambda x, y: sb_or(s_eq(x, y), sb_and(s_isnan(x), s_isnan(y))), a, b, "b"))
    return F_all(apply2(s_eq, a, b, "b"))


def F_apply_along_axis(func1d, axis, arr, *args, **kwargs):
    arr = asarr(arr)
    axis = _conc(axis)
    r = np.moveaxis(raw(arr), axis, -1)
    inds = list(np.ndindex(r.shape[:-1]))
    if not inds:
        raise ValueError("Cannot apply_along_axis when any iteration dimensions are 0")
    first = None
    outs = {}
    for idx in inds:
        res = asarr(func1d(wrap(r[idx], arr.sdt), *args, **kwargs))
        if first is None:
            first = res
        outs[idx] = res
    o = np.empty(r.shape[:-1] + first.shape, dtype=object)
    for idx in inds:
        if outs[idx].shape != first.shape:
            raise ValueError("could not broadcast input array")
        o[idx] = raw(castarr(outs[idx], first.sdt)) if first.ndim else raw(outs[idx])[()]
    if first.ndim:
        # the result axes replace `axis`
        nd = r.ndim - 1
        ax = axis % arr.ndim
        order = list(range(ax)) + list(range(nd, nd + first.ndim)) + list(range(ax, nd))
        o = np.transpose(o, order)
    return wrap(o, first.sdt)


def F_vectorize(pyfunc, *a, **k):
    def g(*args):
        return applyn(lambda *e: pyfunc(*e), args, "f8")
    return g


def F_interp(*a, **k):
    raise EngineError("np.interp")


def F_percentile(*a, **k):
    raise EngineError("np.percentile")


def F_median(a, axis=None, **k):
    def g(xs):
        s = sort_list([tof(x) for x in xs])
        n = len(s)
        m = s[n // 2] if n % 2 else f_div(f_add(s[n // 2 - 1], s[n // 2]), 2.0)
        return f_ite(l_any([f_isnan(x) for x in xs]), NAN, m)
    return reduce_(g, a, axis, "f8")


def F_take(a, i, axis=None, **k):
    i = _conc(i)
    if isinstance(i, SymArray):
        i = raw(i).astype(int)
    return rewrap(np.take(raw(asarr(a)), i, axis=axis), asarr(a).sdt)


def F_sizefn(a, axis=None):
    return asarr(a).size if axis is None else asarr(a).shape[axis]


def F_shape(a):
    return asarr(a).shape


def F_ndim(a):
    return asarr(a).ndim


def F_round(a, decimals=0, out=None):
    return apply1(lambda e: s_round(e, decimals), a, asarr(a).sdt)


def F_append(arr, values, axis=None):
    a, v = asarr(arr), asarr(values)
    if axis is None:
        a, v = a.reshape(-1), v.reshape(-1)
        axis = 0
    s = promote(a.sdt, v.sdt)
    return wrap(np.concatenate([raw(castarr(a, s)), raw(castarr(v, s))], axis=axis), s)


def _concat(fn):
    def g(arrs, *a, **k):
        arrs = [asarr(x) for x in arrs]
        k.pop("dtype", None)
        s = promote(*[x.sdt for x in arrs])
        return wrap(fn([raw(castarr(x, s)) for x in arrs], *a, **k), s)
    return g


def F_unique(a, **k):
    a = asarr(a)
    if any(is_symb(e) for e in raw(a).flat):
        raise EngineError("np.unique on symbolic data")
    return asarr(np.unique(np.array(raw(a).tolist()), **k))


def F_frombuffer(buf, dtype=float, count=-1, offset=0):
    if hasattr(buf, "_symx_buffer_"):
        return buf._symx_buffer_(dtype, count, offset)
    return np.frombuffer(buf, dtype, count, offset)


def F_sum_builtin(xs, start=0):
    if isinstance(xs, np.ndarray):
        r = start
        for x in xs:
            r = r + x
        return r
    return sum(xs, start)


def F_trapz(*a, **k):
    raise EngineError("np.trapz")


def F_select(condlist, choicelist, default=0):
    r = default
    for c, x in reversed(list(zip(condlist, choicelist))):
        r = F_where(c, x, r)
    return asarr(r)


def F_average(a, axis=None, weights=None, **k):
    if weights is None:
        return F_mean(a, axis)
    a, w = asarr(a), asarr(weights)
    return F_sum(a * w, axis) / F_sum(w + a * 0, axis)


def F_outer(a, b):
    a, b = asarr(a).reshape(-1), asarr(b).reshape(-1)
    return a.reshape(-1, 1) * b


def F_full_like(a, fill_value, dtype=None, **k):
    a = asarr(a)
    return F_full(a.shape, fill_value, dtype if dtype is not None else a.dtype)


def F_copy(a, **k):
    return F_array(a)


def F_isin(a, vals, **k):
    vals = list(raw(asarr(vals)).reshape(-1))
    return apply1(lambda e: l_any([s_eq(e, v) for v in vals]), a, "b")


def F_ediff1d(a, **k):
    return F_diff(asarr(a).reshape(-1))


def F_nonmask(*a, **k):
    return False


def F_reshape(a, newshape=None, order="C", shape=None, **k):
    return rewrap(np.reshape(raw(asarr(a)), _shape(newshape if newshape is not None else shape), order=order), asarr(a).sdt)


def F_broadcast_to(a, shape, **k):
    return rewrap(np.broadcast_to(raw(asarr(a)), _shape(shape)), asarr(a).sdt)


def F_isreal(a):
    return apply1(lambda e: True, a, "b")


def F_ravel(a, order="C"):
    return wrap(np.ravel(raw(asarr(a)), order), asarr(a).sdt)


def F_errstate(**k):
    return np.errstate()


def F_nanvar(a, axis=None, ddof=0, **k): return reduce_(l_nanvar(ddof), a, axis, "f8")
def F_nanstd(a, axis=None, ddof=0, **k): return reduce_(lambda xs: f_sqrt(l_nanvar(ddof)(xs)), a, axis, "f8")


FUNCS = dict(
    sum=F_sum, prod=F_prod, mean=F_mean, nanmean=F_nanmean, nansum=F_nansum, var=F_var, std=F_std, nanvar=F_nanvar,
    nanstd=F_nanstd, amax=F_max, max=F_max, amin=F_min, min=F_min, nanmax=F_nanmax, nanmin=F_nanmin, any=F_any,
    all=F_all, count_nonzero=F_count_nonzero, cumsum=F_cumsum, nancumsum=F_nancumsum, clip=F_clip, where=F_where,
    nonzero=F_nonzero, diff=F_diff, sort=F_sort, argsort=F_argsort, argmax=F_argmax, argmin=F_argmin,
    convolve=F_convolve, correlate=F_correlate, dot=F_dot, matmul=F_dot, inner=F_dot, vdot=F_dot, pad=F_pad,
    full=F_full, zeros=F_zeros, ones=F_ones, empty=F_empty, full_like=F_full_like, zeros_like=_like(F_zeros),
    ones_like=_like(F_ones), empty_like=_like(F_empty), array=F_array, asarray=F_asarray, asanyarray=F_asarray,
    ascontiguousarray=F_asarray, arange=F_arange, linspace=F_linspace, copyto=F_copyto, putmask=F_putmask,
    place=F_place, nan_to_num=F_nan_to_num, isclose=F_isclose, allclose=F_allclose, array_equal=F_array_equal,
    apply_along_axis=F_apply_along_axis, vectorize=F_vectorize, median=F_median, take=F_take, size=F_sizefn,
    shape=F_shape, ndim=F_ndim, round=F_round, around=F_round, round_=F_round, append=F_append,
    concatenate=_concat(np.concatenate), hstack=_concat(np.hstack), vstack=_concat(np.vstack), stack=_concat(np.stack),
    column_stack=_concat(np.column_stack), dstack=_concat(np.dstack), unique=F_unique, frombuffer=F_frombuffer,
    select=F_select, average=F_average, outer=F_outer, copy=F_copy, isin=F_isin, in1d=F_isin, ediff1d=F_ediff1d,
    reshape=F_reshape, broadcast_to=F_broadcast_to, ravel=F_ravel, isreal=F_isreal, flatnonzero=lambda a: F_nonzero(asarr(a).reshape(-1))[0],
    argwhere=lambda a: np.stack(F_nonzero(a), axis=-1), cumprod=lambda a, axis=None: EngineErr("cumprod"),
    atleast_1d=lambda a: asarr(a) if asarr(a).ndim else asarr(a).reshape(1),
    interp=F_interp, percentile=F_percentile, fill_diagonal=F_interp, ptp=lambda a, axis=None: F_max(a, axis) - F_min(a, axis),
)


def EngineErr(n):
    raise EngineError(f"numpy function {n} not modelled")


class _MA(types.SimpleNamespace):
    pass


def _ma():
    class MaskedArray:  # never instantiated by the shim
        pass
    return _MA(is_masked=lambda x: False, isMaskedArray=lambda x: False, isMA=lambda x: False,
               MaskedArray=MaskedArray, masked_array=MaskedArray, masked=np.ma.masked,
               isarray=lambda x: False, getmaskarray=lambda x: F_zeros(asarr(x).shape, bool),
               filled=lambda x, *a: x)


class NumpyShim(types.ModuleType):
    """module object bound to the name numpy in the code under test"""

    def __init__(self):
        super().__init__("numpy")
        self.ma = _ma()
        self.__path__ = []
        self.errstate = np.errstate
        self.seterr = lambda *a, **k: {}
        for u in list(UF) + [np.divmod]:
            setattr(self, u.__name__, _UfuncShim(u))
        for al, t in dict(abs="absolute", divide="true_divide", mod="remainder", pow="power", bitwise_not="invert",
                          acos="arccos").items():
            setattr(self, al, getattr(self, getattr(np, t).__name__))
        for n, f in FUNCS.items():
            setattr(self, n, f)
        for n in STRUCT:
            if n in FUNCS:
                continue
            f = getattr(np, n, None)
            if f is None and n == "sliding_window_view":
                continue
            if f is not None:
                setattr(self, n, _struct(f))
        self.lib = types.SimpleNamespace(stride_tricks=types.SimpleNamespace(
            sliding_window_view=lambda x, window_shape, axis=None, **k: struct_call(
                np.lib.stride_tricks.sliding_window_view, (x, _conc(window_shape)), {"axis": axis})))
        self.finfo = np.finfo
        self.float_ = np.float64
        self.bool = np.bool_
        self.product = F_prod

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        v = getattr(np, name)
        return v


class _UfuncShim:
    def __init__(self, u):
        self.u = u
        self.__name__ = u.__name__

    def __call__(self, *a, **k):
        k.pop("dtype", None)
        k.pop("casting", None)
        n = self.u.nin
        if len(a) > n:
            k["out"] = a[n]
            a = a[:n]
        a = [x if not isinstance(x, (list, tuple)) else asarr(x) for x in a]
        return dispatch_ufunc(self.u, "__call__", tuple(a), k)

    def reduce(self, a, axis=0, **k):
        return dispatch_ufunc(self.u, "reduce", (asarr(a),), dict(axis=axis, **k))

    def accumulate(self, a, axis=0, **k):
        return dispatch_ufunc(self.u, "accumulate", (asarr(a),), dict(axis=axis))

    def outer(self, a, b, **k):
        return dispatch_ufunc(self.u, "outer", (a, b), {})


def _struct(f):
    def g(*a, **k):
        return struct_call(f, a, k)
    g.__name__ = f.__name__
    return g
