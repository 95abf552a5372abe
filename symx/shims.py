"""Stand-ins for the other modules the code under test imports."""
import builtins
import calendar as _cal
import datetime as _dt
import glob
import logging as _logging
import math as _math
import os
import types

import numpy as np
import scipy.special as _sp
import scipy.stats as _st

from . import core, nps
from .core import (SymF, SymInt, SymBool, tof, f_ite, f_lt, f_le, f_gt, f_eq, f_isnan, f_div, f_sub, f_mul, mkb, NAN,
                   INF, sb_or, sb_and, sb_not, b_or, b_and, b_not, rv, z3, EngineError)


# ------------------------------------------------------------------ builtins
class _IntMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (int, SymInt))

    def __call__(cls, x=0, *a):
        if isinstance(x, (SymF, SymInt, SymBool)):
            return core.f2i(x)
        if isinstance(x, nps.SymArray) and x.size == 1:
            return core.f2i(nps.raw(x).reshape(-1)[0])
        return int(x, *a)

    def __eq__(cls, o):
        return o is cls or o is int

    def __hash__(cls):
        return hash(int)


class IntShim(metaclass=_IntMeta):
    _real_ = int
    from_bytes = int.from_bytes


class _FloatMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (float, SymF))

    def __call__(cls, x=0.0):
        if isinstance(x, (SymF, SymInt, SymBool)):
            return tof(x)
        if isinstance(x, nps.SymArray) and x.size == 1:
            return tof(nps.raw(x).reshape(-1)[0])
        return float(x)

    def __eq__(cls, o):
        return o is cls or o is float

    def __hash__(cls):
        return hash(float)


class FloatShim(metaclass=_FloatMeta):
    _real_ = float


def _unshim(t):
    if isinstance(t, tuple):
        return tuple(_unshim(x) for x in t)
    return t


def b_isinstance(x, t):
    ts = t if isinstance(t, tuple) else (t,)
    for c in ts:
        if isinstance(c, tuple):
            if b_isinstance(x, c):
                return True
        elif isinstance(x, c):
            return True
        elif isinstance(x, SymF) and isinstance(c, type) and issubclass(np.float64, c) and c is not object:
            return True
        elif isinstance(x, SymInt) and isinstance(c, type) and (issubclass(np.int64, c) or issubclass(int, c)):
            return True
        elif isinstance(x, SymBool) and c in (bool, np.bool_):
            return True
    return False


def _flat_args(a):
    if len(a) == 1:
        x = a[0]
        return list(x)
    return list(a)


def b_max(*a, **k):
    if k:
        return max(*a, **k)
    xs = _flat_args(a)
    if not any(nps.is_symb(x) for x in xs):
        return max(xs)
    r = xs[0]
    for x in xs[1:]:
        r = nps.s_ite(nps.s_gt(x, r), x, r)
    return r


def b_min(*a, **k):
    if k:
        return min(*a, **k)
    xs = _flat_args(a)
    if not any(nps.is_symb(x) for x in xs):
        return min(xs)
    r = xs[0]
    for x in xs[1:]:
        r = nps.s_ite(nps.s_lt(x, r), x, r)
    return r


def b_sum(xs, start=0):
    if isinstance(xs, nps.SymArray) and xs.ndim == 1:
        els = list(nps.raw(xs))
        if any(nps.is_symb(e) for e in els):
            return nps.l_sum(els + [start]) if not (nps.isnum(start) and start == 0) else nps.l_sum(els)
    xs = list(xs)
    if any(isinstance(e, (SymF,)) for e in xs) and not any(isinstance(e, np.ndarray) for e in xs):
        return nps.l_sum(xs + ([start] if not (nps.isnum(start) and start == 0) else []))
    return sum(xs, start)


def b_pow(a, b, *m):
    return a ** b if not m else pow(a, b, *m)


class _RangeMeta(type):
    def __call__(cls, *a):
        if not any(isinstance(v, SymInt) for v in a):
            return builtins.range(*a)
        lo, hi, st = (0, a[0], 1) if len(a) == 1 else (a[0], a[1], a[2] if len(a) > 2 else 1)
        st = core.EX.concretize(st) if isinstance(st, SymInt) else st
        n = hi - lo
        n = core.EX.concretize(n) if isinstance(n, SymInt) else int(n)
        n = len(builtins.range(0, n, st))
        return [lo + i * st for i in builtins.range(n)]

    def __instancecheck__(cls, x):
        return builtins.isinstance(x, builtins.range)


class RangeShim(metaclass=_RangeMeta):
    pass


def make_builtins(importer):
    d = dict(vars(builtins))
    d.update(range=RangeShim, int=IntShim, float=FloatShim, isinstance=b_isinstance, max=b_max, min=b_min, sum=b_sum, pow=b_pow,
             __import__=importer, print=lambda *a, **k: None)
    return d


# ---------------------------------------------------------------------- math
def _dom(bad):
    if bad is True or (bad is not False and bool(bad)):
        raise ValueError("math domain error")


class MathShim(types.ModuleType):
    def __init__(self):
        super().__init__("math")

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        f = getattr(_math, name)
        if not callable(f):
            return f
        g = MATH.get(name)

        def h(*a):
            a = [x if not isinstance(x, np.ndarray) else nps.scal(x) if x.ndim == 0 else
                 (nps.raw(x).reshape(-1)[0] if isinstance(x, nps.SymArray) and x.size == 1 else x) for x in a]
            if any(nps.is_symb(x) for x in a) or any(isinstance(x, (list, tuple)) for x in a):
                if g is None:
                    raise EngineError(f"math.{name} not modelled")
                return g(*a)
            return f(*a)
        return h


def m_sqrt(x):
    _dom(f_lt(x, 0.0))
    return core.f_sqrt(x)


def m_log(x, base=None):
    _dom(f_le(x, 0.0))
    r = core.f_log(x)
    return r if base is None else f_div(r, m_log(base) if nps.is_symb(base) else _math.log(base))


def m_acos(x):
    _dom(sb_or(f_gt(x, 1.0), f_lt(x, -1.0)))
    return core.f_acos(x)


f_lgamma = core.f_unary("lgamma", _sp.gammaln)

MATH = dict(
    sqrt=m_sqrt, log=m_log, exp=core.f_exp, sin=core.f_sin, cos=core.f_cos, tan=core.f_tan, acos=m_acos,
    lgamma=f_lgamma, gamma=lambda x: core.f_exp(f_lgamma(x)), fabs=core.f_abs, isnan=core.f_isnan,
    isinf=core.f_isinf, isfinite=core.f_isfinite, pow=core.f_pow,
    floor=lambda x: core.f2i(core.f_floor(x)), ceil=lambda x: core.f2i(core.f_ceil(x)), trunc=core.f2i,
    radians=nps.s_deg2rad, degrees=nps.s_rad2deg, fsum=b_sum, prod=lambda xs, start=1: nps.l_prod([start] + list(xs)),
    log10=lambda x: (_dom(f_le(x, 0.0)), nps.s_log10(x))[1],
    log2=lambda x: (_dom(f_le(x, 0.0)), nps.s_log2(x))[1],
    hypot=lambda a, b: core.f_sqrt(core.f_add(f_mul(a, a), f_mul(b, b))),
    isclose=lambda a, b, rel_tol=1e-9, abs_tol=0.0: sb_or(f_eq(a, b), f_le(
        core.f_abs(f_sub(a, b)), b_max(f_mul(rel_tol, b_max(core.f_abs(a), core.f_abs(b))), abs_tol))),
    copysign=lambda a, b: f_ite(f_lt(b, 0.0), core.f_neg(core.f_abs(a)), core.f_abs(a)),
    fmod=nps.s_fmod,
)


# ------------------------------------------------------------- scipy functions
def _pt(a):
    a = tof(a)
    return a


def s_gammainc(a, x):
    """regularised lower incomplete gamma P(a, x), scipy domain rules"""
    a, x = tof(a), tof(x)
    if not nps.is_symb(a) and not nps.is_symb(x):
        return np.float64(_sp.gammainc(a, x))
    t, sh = core.uf("gammainc", [a, x], _sp.gammainc)
    core.EX.axiom(t >= 0, t <= 1)
    A, X = core._lift(a), core._lift(x)
    r = core.mkf(t, b_or(A.nan, X.nan), False, False, sh)
    r = f_ite(f_le(x, 0.0), np.float64(0.0), r)
    r = f_ite(core.f_isinf(x), f_ite(f_gt(x, 0.0), np.float64(1.0), np.float64(0.0)), r)
    r = f_ite(sb_or(f_isnan(a), f_isnan(x)), NAN, r)
    return r


def s_gamma_cdf(x, a, loc=0.0, scale=1.0):
    x, a, loc, scale = tof(x), tof(a), tof(loc), tof(scale)
    if not any(nps.is_symb(v) for v in (x, a, loc, scale)):
        return np.float64(_st.gamma.cdf(x, a, loc=loc, scale=scale))
    bad = sb_or(sb_or(f_isnan(x), f_isnan(a)), sb_or(f_isnan(scale), sb_not(f_gt(scale, 0.0))))
    bad = sb_or(bad, sb_not(f_gt(a, 0.0)))
    bad = sb_or(bad, sb_or(core.f_isinf(a), core.f_isinf(scale)))
    y = f_sub(x, loc)
    # finite part: a plain application on (x, a, scale); infinities were excluded above
    A, Y, S = core._lift(a), core._lift(y), core._lift(scale)
    t, sh = core.uf("gamma_cdf", [Y, A, S], lambda u, v, w: _st.gamma.cdf(u, v, scale=w))
    core.EX.axiom(t >= 0, t <= 1)
    core.mono_axioms("gamma_cdf", [A.v, S.v], Y.v, t)
    r = core.mkf(t, False, False, False, sh)
    r = f_ite(f_le(y, 0.0), np.float64(0.0), r)
    if not Y.fin():
        r = f_ite(core.f_isinf(y), f_ite(f_gt(y, 0.0), np.float64(1.0), np.float64(0.0)), r)
    return f_ite(bad, NAN, r)


def s_pearson3_cdf(x, skew, loc=0.0, scale=1.0):
    x, skew, loc, scale = tof(x), tof(skew), tof(loc), tof(scale)
    if not any(nps.is_symb(v) for v in (x, skew, loc, scale)):
        return np.float64(_st.pearson3.cdf(x, skew, loc, scale))
    bad = sb_or(sb_or(f_isnan(x), f_isnan(skew)), sb_or(f_isnan(loc), sb_not(f_gt(scale, 0.0))))
    X, S, L, C = map(core._lift, (x, skew, loc, scale))
    t, sh = core.uf("pearson3_cdf", [X, S, L, C], lambda u, v, w, z: _st.pearson3.cdf(u, v, w, z))
    core.EX.axiom(t >= 0, t <= 1)
    core.mono_axioms("pearson3_cdf", [S.v, L.v, C.v], X.v, t)
    r = core.mkf(t, False, False, False, sh)
    if not X.fin():
        r = f_ite(core.f_isinf(x), f_ite(f_gt(x, 0.0), np.float64(1.0), np.float64(0.0)), r)
    return f_ite(bad, NAN, r)


def settled(p):
    """p with those of its case conditions put in that the path's facts already
    decide (a handful at most)"""
    if not core.EX.settle or not nps.is_symb(p) or not z3.is_app(p.v):
        return p
    subs, todo, seen = [], [p.v], set()
    while todo and len(subs) < 6:
        t = todo.pop()
        if t.get_id() in seen or not z3.is_app(t):
            continue
        seen.add(t.get_id())
        if len(seen) > 60:
            break
        if t.decl().kind() == z3.Z3_OP_ITE:
            c = t.arg(0)
            if not core.EX.possible(z3.Not(c)):
                subs.append((c, z3.BoolVal(True)))
                todo.append(t.arg(1))
                continue
            if not core.EX.possible(c):
                subs.append((c, z3.BoolVal(False)))
                todo.append(t.arg(2))
                continue
        todo.extend(t.children())
    if not subs:
        return p
    return core.mkf(z3.simplify(z3.substitute(p.v, *subs)), p.nan, p.pinf, p.ninf, p.sh)


def s_ndtri(p):
    p = settled(tof(p))
    if not nps.is_symb(p):
        return np.float64(_sp.ndtri(p))
    t, sh = core.uf("norm_ppf", [p], _sp.ndtri)
    core.EX.axiom(z3.Implies(p.v == rv(0.5), t == 0), z3.Implies(p.v > rv(0.5), t > 0), z3.Implies(p.v < rv(0.5), t < 0),
                  # Phi(3.09) = 0.998999...
                  z3.Implies(z3.And(p.v >= rv(0.0011), p.v <= rv(0.9989)), z3.And(t > rv(-3.09), t < rv(3.09))),
                  z3.Implies(p.v >= rv(0.9991), t > rv(3.09)), z3.Implies(p.v <= rv(0.0009), t < rv(-3.09)))
    core.mono_axioms("ppf", [], p.v, t, strict=True, when=lambda v: z3.And(v > 0, v < 1))
    P = core._lift(p)
    lo, hi = f_eq(p, 0.0), f_eq(p, 1.0)
    bad = sb_or(sb_or(f_isnan(p), f_lt(p, 0.0)), f_gt(p, 1.0))
    r = core.mkf(t, False, False, False, sh)
    if not (isinstance(bad, bool)) and not core.EX.possible(bad.z):
        bad = False
    if not isinstance(lo, bool) and not core.EX.possible(lo.z):
        lo = False
    if not isinstance(hi, bool) and not core.EX.possible(hi.z):
        hi = False
    r = f_ite(lo, -INF, r)
    r = f_ite(hi, INF, r)
    return f_ite(bad, NAN, r)


def s_norm_cdf(x):
    x = tof(x)
    if not nps.is_symb(x):
        return np.float64(_sp.ndtr(x))
    t, sh = core.uf("norm_cdf", [x], _sp.ndtr)
    core.EX.axiom(t > 0, t < 1)
    X = core._lift(x)
    return core.mkf(t, X.nan, False, False, sh)


def s_norm_ppf(p, loc=0.0, scale=1.0):
    r = s_ndtri(p)
    if not (not nps.is_symb(loc) and loc == 0 and not nps.is_symb(scale) and scale == 1):
        r = core.f_add(f_mul(r, scale), loc)
    return r


def _vec(fn, names, defaults):
    def g(*a, **k):
        args = list(a)
        for n, d in list(zip(names, defaults))[len(args):]:
            v = k.pop(n, d)
            if v is _REQ:
                raise TypeError(f"missing argument {n}")
            args.append(v)
        if k:
            raise TypeError(f"unexpected arguments {list(k)}")
        return nps.applyn(fn, args, "f8")
    return g


_REQ = object()


class Dist:
    def __init__(self, real, names, defaults, **fns):
        self._real = real
        for n, f in fns.items():
            setattr(self, n, _vec(f, ["q" if n == "ppf" else "x"] + names, [_REQ] + defaults))
        self._names, self._defaults = names, defaults

    def sf(self, *a, **k):
        c = self.cdf(*a, **k)
        return 1.0 - c

    def __call__(self, *a, **k):
        outer = self

        class Frozen:
            def __getattr__(s, n):
                return lambda x: getattr(outer, n)(x, *a, **k)
        return Frozen()

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        raise EngineError(f"scipy distribution method {n} not modelled")


def scipy_version():
    for p in glob.glob("/opt/venv/lib/*/site-packages/scipy-*.dist-info"):
        return os.path.basename(p).split("-")[1]
    return "1.10.1"


def make_scipy():
    stats = types.ModuleType("scipy.stats")
    stats.gamma = Dist(_st.gamma, ["a", "loc", "scale"], [_REQ, 0.0, 1.0], cdf=s_gamma_cdf)
    stats.norm = Dist(_st.norm, ["loc", "scale"], [0.0, 1.0], ppf=s_norm_ppf,
                      cdf=lambda x, l=0.0, s=1.0: s_norm_cdf(x))
    stats.pearson3 = Dist(_st.pearson3, ["skew", "loc", "scale"], [_REQ, 0.0, 1.0], cdf=s_pearson3_cdf)
    special = types.ModuleType("scipy.special")
    special.gammainc = _vec(lambda a, x: s_gamma_cdf(x, a), ["a", "x"], [_REQ, _REQ])
    special.ndtri = _vec(s_ndtri, ["p"], [_REQ])
    special.ndtr = _vec(s_norm_cdf, ["p"], [_REQ])
    special.gammaln = _vec(f_lgamma, ["x"], [_REQ])
    special.gamma = _vec(lambda x: core.f_exp(f_lgamma(x)), ["x"], [_REQ])
    const = types.ModuleType("scipy.constants")
    const.zero_Celsius, const.inch, const.degree_Fahrenheit, const.milli = 273.15, 0.0254, 5 / 9, 1e-3

    def convert_temperature(val, old_scale, new_scale):
        t = nps.asarr(val, "f8") if not nps.is_symb(val) else val
        o, n = str(old_scale).lower(), str(new_scale).lower()
        if o in ("celsius", "c"):
            k = t + 273.15
        elif o in ("kelvin", "k"):
            k = t
        elif o in ("fahrenheit", "f"):
            k = (t - 32.0) * 5.0 / 9.0 + 273.15
        elif o in ("rankine", "r"):
            k = t * 5.0 / 9.0
        else:
            raise NotImplementedError(f"{old_scale} scale is unsupported")
        if n in ("celsius", "c"):
            return k - 273.15
        if n in ("kelvin", "k"):
            return k
        if n in ("fahrenheit", "f"):
            return (k - 273.15) * 9.0 / 5.0 + 32.0
        if n in ("rankine", "r"):
            return k * 9.0 / 5.0
        raise NotImplementedError(f"{new_scale} scale is unsupported")
    const.convert_temperature = convert_temperature
    version = types.ModuleType("scipy.version")
    version.version = scipy_version()
    sc = types.ModuleType("scipy")
    sc.stats, sc.special, sc.version, sc.constants, sc.__version__ = stats, special, version, const, version.version
    sc.__path__ = []
    return {"scipy": sc, "scipy.stats": stats, "scipy.special": special, "scipy.version": version, "scipy.constants": const}


# -------------------------------------------------------------------- calendar
def isleap(y):
    if isinstance(y, SymInt):
        z = z3.Or(z3.And(y.z % 4 == 0, y.z % 100 != 0), y.z % 400 == 0)
        s = y.sh
        return mkb(z, ((s % 4 == 0) & (s % 100 != 0)) | (s % 400 == 0))
    return _cal.isleap(y)


def leapdays(a, b):
    a = a - 1
    b = b - 1
    return (b // 4 - a // 4) - (b // 100 - a // 100) + (b // 400 - a // 400)


class CalShim(types.ModuleType):
    def __init__(self):
        super().__init__("calendar")
        self.isleap = isleap
        self.leapdays = leapdays
        self.monthrange = lambda y, m: (0, _dim(y, m)) if nps.is_symb(y) or nps.is_symb(m) else _cal.monthrange(y, m)

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        return getattr(_cal, n)


_DBM = [0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334]


def _dim(y, m):
    m = core.EX.concretize(m) if isinstance(m, SymInt) else m
    d = [31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31][m - 1]
    if m == 2:
        d = d + core.bool_to_int(isleap(y)) if nps.is_symb(isleap(y)) else d + int(isleap(y))
    return d


class SymDate:
    """date/datetime with symbolic year or month (day resolution)"""

    def __init__(self, year, month=1, day=1, *rest, **kw):
        if not isinstance(month, int) and isinstance(month, SymInt):
            month = core.EX.concretize(month)
        if not isinstance(day, int) and isinstance(day, SymInt):
            day = core.EX.concretize(day)
        if isinstance(year, (SymF, float)) or isinstance(month, float) or isinstance(day, float):
            raise TypeError("integer argument expected, got float")
        if not 1 <= month <= 12:
            raise ValueError("month must be in 1..12")
        if bool(sb_or(year < 1, year > 9999)):
            raise ValueError("year out of range")
        if not (1 <= day and bool(day <= _dim(year, month))):
            raise ValueError("day is out of range for month")
        self.year, self.month, self.day = year, month, day
        self.hour = self.minute = self.second = 0

    def toordinal(self):
        y = self.year - 1
        n = y * 365 + y // 4 - y // 100 + y // 400 + _DBM[self.month - 1] + self.day
        if self.month > 2:
            lp = isleap(self.year)
            n = n + (core.bool_to_int(lp) if nps.is_symb(lp) else int(lp))
        return n

    def __sub__(self, o):
        if isinstance(o, (SymDate, _dt.date)):
            return SymDelta(self.toordinal() - o.toordinal())
        raise EngineError("date - timedelta")

    def __rsub__(self, o):
        return SymDelta(o.toordinal() - self.toordinal())

    def date(self):
        return self

    def timetuple(self):
        d = self

        class T:
            tm_yday = d.toordinal() - SymDate(d.year, 1, 1).toordinal() + 1
        return T()

    def __lt__(self, o): return self.toordinal() < o.toordinal()
    def __le__(self, o): return self.toordinal() <= o.toordinal()
    def __gt__(self, o): return self.toordinal() > o.toordinal()
    def __ge__(self, o): return self.toordinal() >= o.toordinal()


class SymDelta:
    def __init__(self, days):
        self.days = days
        self.seconds = 0

    def total_seconds(self):
        return self.days * 86400


class _DateMeta(type):
    def __call__(cls, *a, **k):
        vals = list(a) + list(k.values())
        if any(nps.is_symb(v) for v in vals):
            return SymDate(*a, **k)
        return cls._real(*a, **k)

    def __instancecheck__(cls, x):
        return isinstance(x, (SymDate, cls._real))

    def __getattr__(cls, n):
        return getattr(cls._real, n)


class DateTimeShim(metaclass=_DateMeta):
    _real = _dt.datetime


class DateShim(metaclass=_DateMeta):
    _real = _dt.date


def make_datetime():
    m = types.ModuleType("datetime")
    m.datetime, m.date, m.timedelta = DateTimeShim, DateShim, _dt.timedelta
    m.timezone, m.MINYEAR, m.MAXYEAR = _dt.timezone, 1, 9999
    return m


# -------------------------------------------------------------------- logging
class _Null:
    def __getattr__(self, n):
        return lambda *a, **k: None


def make_logging():
    m = types.ModuleType("logging")
    m.getLogger = lambda *a, **k: _Null()
    m.basicConfig = lambda *a, **k: None
    for n in ("DEBUG", "INFO", "WARN", "WARNING", "ERROR", "CRITICAL"):
        setattr(m, n, getattr(_logging, n))
    m.Logger = _Null
    m.StreamHandler = m.NullHandler = m.Formatter = lambda *a, **k: _Null()
    return m


def make_distutils():
    class LooseVersion:
        def __init__(self, v):
            self.v = self._p(v)

        @staticmethod
        def _p(v):
            import re
            out = []
            for c in re.split(r"(\d+|[a-z]+|\.)", str(v)):
                if c and c != ".":
                    out.append(int(c) if c.isdigit() else c)
            return out

        def _o(self, o):
            return o.v if isinstance(o, LooseVersion) else self._p(o)

        def __lt__(self, o): return self.v < self._o(o)
        def __le__(self, o): return self.v <= self._o(o)
        def __gt__(self, o): return self.v > self._o(o)
        def __ge__(self, o): return self.v >= self._o(o)
        def __eq__(self, o): return self.v == self._o(o)
    v = types.ModuleType("distutils.version")
    v.LooseVersion = LooseVersion
    d = types.ModuleType("distutils")
    d.version = v
    d.__path__ = []
    return {"distutils": d, "distutils.version": v}
