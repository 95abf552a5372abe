"""Symbolic side of a harness: inputs, obligations, path loop, candidate models."""
import importlib
import inspect
import json
import math
import os
import sys
import time
import traceback

import numpy as np
import z3

from . import core, nps, shims
from .core import (EngineError, Explorer, PathAbort, PathBudget, SymBool, SymF, SymInt, f_abs, f_add, f_eq, f_isnan,
                   f_ite, f_le, f_mul, f_sub, mkb, sb_and, sb_not, sb_or, tof, b_or, b_and, b_not)
from .loader import Loader, seen

from .mpstub import times

TOL = z3.Real("TOL")
TOL0 = 1e-6


class Outcome:
    def __init__(self, val=None, exc=None):
        self.val = val
        self.exc = exc

    def ok(self):
        return self.exc is None

    def raised(self, *names):
        return self.exc is not None and any(c.__name__ in names for c in type(self.exc).__mro__)


class SymCtx:
    symbolic = True

    def __init__(self, ex, known, extra_mods=None, tier="quick"):
        self.ex = ex
        self.tier = tier
        self.obls = []
        self.covers = []
        self.known_ids = known
        self.extra = extra_mods
        self.loader = Loader(extra_mods)
        self.np = self.loader.np
        self.notes = {}

    # ---- code under test
    def mod(self, name):
        return self.loader.load(name)

    def call(self, f, *a, **k):
        try:
            return Outcome(f(*a, **k))
        except Exception as e:  # the code under test may raise; that is behaviour
            self.last_tb = traceback.format_exc()
            return Outcome(exc=e)

    # ---- command line tools (needs EXTRA_MODS = cli_mods)
    def cli(self, name, cpus=4, order="in order", same=False):
        from . import xrs
        e = xrs.ENV
        e.cpus, e.order, e.same = cpus, order, same
        e.modules = lambda: list(self.loader.mods.values())
        return self.mod("climate_indices." + name)

    def fresh(self):
        """another process: the package is imported again, the files stay"""
        self.loader.mods.clear()

    def path(self, name):
        return "/data/" + name

    def nc_write(self, name, coords, vars, aux=()):
        from . import xrs
        vs = {}
        for k, v in coords.items():
            vs[k] = xrs.Var((k,), times(v) if k == "time" else v, {"units": "degrees"} if k in ("lat", "lon") else {})
        for k, (dims, a, attrs) in vars.items():
            vs[k] = xrs.Var(dims, a.copy() if isinstance(a, np.ndarray) else a, attrs)
        p = self.path(name)
        xrs.FS[p] = dict(vars=vs, coords=set(coords) | set(aux), attrs={})
        return p

    def nc_read(self, path):
        from . import xrs
        f = xrs.FS.get(path)
        if f is None:
            return None
        return {k: (v.dims, v.arr) for k, v in f["vars"].items()}

    def nc_list(self):
        from . import xrs
        return sorted(p.rpartition("/")[2] for p in xrs.FS)

    def argv(self, args):
        sys.argv = [str(a) for a in args]

    # ---- inputs
    def _sh(self, lo, hi):
        r = self.ex.rng
        a = -50.0 if lo is None else float(lo)
        b = (a + 100.0) if hi is None else float(hi)
        if hi is None and lo is None:
            a, b = -50.0, 50.0
        return np.array([r.uniform(a, b) for _ in range(core.K)])

    def real(self, name, lo=None, hi=None, nan=False):
        v = z3.Real(name)
        sh = self._sh(lo, hi)
        nb = False
        if nan:
            nb = z3.Bool(name + "?nan")
        if lo is not None:
            self.ex.axiom(v >= core.rv(lo))
        if hi is not None:
            self.ex.axiom(v <= core.rv(hi))
        x = SymF(v, nb, False, False, sh)
        self._reg(name, "real", v, nb, sh, lo, hi)
        return x

    def int(self, name, lo, hi):
        v = z3.Int(name)
        self.ex.axiom(v >= lo, v <= hi)
        sh = np.array([float(self.ex.rng.randint(lo, hi)) for _ in range(core.K)])
        self._reg(name, "int", v, False, sh, lo, hi)
        return SymInt(v, sh, (lo, hi) if hi - lo <= 24 else None)

    def bool(self, name):
        v = z3.Bool(name)
        sh = np.array([self.ex.rng.random() < 0.5 for _ in range(core.K)])
        self._reg(name, "bool", v, False, sh, None, None)
        return SymBool(v, sh)

    def choice(self, name, options):
        i = self.int(name, 0, len(options) - 1)
        return options[self.ex.concretize(i)]

    def _reg(self, name, kind, v, nb, sh, lo, hi):
        if name in self.ex.inputs:
            raise EngineError(f"duplicate input {name}")
        self.ex.inputs[name] = (kind, v, nb, sh, lo, hi)
        self.ex.input_order.append(name)

    def reals(self, name, shape, lo=None, hi=None, nan=False):
        if isinstance(shape, int):
            shape = (shape,)
        o = np.empty(shape, dtype=object)
        for idx in np.ndindex(shape):
            o[idx] = self.real(f"{name}[{','.join(map(str, idx))}]", lo, hi, nan)
        return nps.wrap(o, "f8")

    def arr(self, x, dtype=float):
        return nps.asarr(x, nps.sdt_of(dtype))

    def copy(self, a):
        return a.copy()

    # ---- logic
    def assume(self, c):
        self.ex.assume(c)

    def And(self, *cs):
        cs = cs[0] if len(cs) == 1 and isinstance(cs[0], (list, tuple)) else cs
        r = nps.l_all(list(cs)) if cs else True
        return bool(r) if isinstance(r, np.bool_) else r

    def Or(self, *cs):
        cs = cs[0] if len(cs) == 1 and isinstance(cs[0], (list, tuple)) else cs
        r = nps.l_any(list(cs)) if cs else False
        return bool(r) if isinstance(r, np.bool_) else r

    def Not(self, c):
        return sb_not(c)

    def Implies(self, a, b):
        return self.Or(self.Not(a), b)

    def ite(self, c, a, b):
        if isinstance(c, SymBool):
            return nps.s_ite(c, a, b)
        return a if c else b

    def isnan(self, x):
        return nps.s_isnan(x)

    def isinf(self, x):
        return core.f_isinf(x)

    def eq(self, a, b):
        """equal, or both missing"""
        return sb_or(nps.s_eq(a, b), sb_and(nps.s_isnan(a), nps.s_isnan(b)))

    def close(self, a, b, scale=1.0):
        a, b = tof(a), tof(b)
        if not nps.is_symb(a) and not nps.is_symb(b):
            if math.isnan(a) or math.isnan(b):
                return math.isnan(a) and math.isnan(b)
            if math.isinf(a) or math.isinf(b):
                return a == b
            return bool(a == b or abs(a - b) <= 1e-6 * max(1.0, abs(a), abs(b)) * max(scale, 1.0))
        A, B = core._lift(a), core._lift(b)
        with np.errstate(all="ignore"):
            sh = (np.isfinite(A.sh) & (np.abs(A.sh - B.sh) <= 1e-6 * np.maximum(1, np.abs(A.sh)))) | (np.isnan(A.sh) & np.isnan(B.sh)) | \
                (A.sh == B.sh)
        nan = b_and(A.nan, B.nan) if not (A.nan is B.nan) else A.nan
        if not A.v.eq(B.v):
            d = z3.simplify(A.v - B.v, som=True)
            if z3.is_rational_value(d) and d.as_fraction() == 0:
                val = True
            elif core.poly_close(A.v, B.v):
                val = True
            else:
                d = A.v - B.v
                s = core.rv(scale) * TOL if scale != 1.0 else TOL
                val = z3.And(d <= s, d >= -s)
        else:
            val = True
        if A.fin() and B.fin():
            okfin = b_and(b_not(A.nan), b_not(B.nan), val)
            return mkb(b_or(nan, okfin), sh)
        same = b_or(b_and(A.pinf, B.pinf), b_and(A.ninf, B.ninf),
                    b_and(b_not(b_or(A.pinf, A.ninf, B.pinf, B.ninf)), val))
        return mkb(b_or(nan, b_and(b_not(A.nan), b_not(B.nan), same)), sh)

    def same_array(self, label, got, want, scale=1.0):
        """obligation: got equals want elementwise (missing where missing)"""
        want = nps.asarr(want)
        if not isinstance(got, np.ndarray) or got.shape != want.shape:
            self.check(label + " [shape]", False)
            return
        g, w = nps.raw(nps.asarr(got)), nps.raw(want)
        for idx in np.ndindex(w.shape):
            self.check(label, self.close(g[idx], w[idx], scale), at=str(idx))

    def same_exact(self, a, b):
        a, b = nps.asarr(a), nps.asarr(b)
        if a.shape != b.shape:
            return False
        return self.And([self.eq(x, y) for x, y in zip(nps.raw(a).reshape(-1), nps.raw(b).reshape(-1))])

    def items(self, a):
        return list(nps.raw(nps.asarr(a)).reshape(-1))

    # ---- spec-level functions
    def sum(self, xs):
        return nps.l_sum(list(xs))

    def fl(self, x):
        return tof(x)

    def div(self, a, b): return core.f_div(a, b)
    def log(self, x): return core.f_log(x)
    def log10(self, x): return nps.s_log10(x)
    def sqrt(self, x): return core.f_sqrt(x)
    def exp(self, x): return core.f_exp(x)
    def pow(self, a, b): return core.f_pow(a, b)
    def sin(self, x): return core.f_sin(x)
    def cos(self, x): return core.f_cos(x)
    def tan(self, x): return core.f_tan(x)
    def acos(self, x): return core.f_acos(x)
    def lgamma(self, x): return shims.f_lgamma(x)
    def gamma_cdf(self, x, a, scale): return shims.s_gamma_cdf(x, a, 0.0, scale)
    def pearson3_cdf(self, x, skew, loc, scale): return shims.s_pearson3_cdf(x, skew, loc, scale)
    def ppf(self, p): return shims.s_ndtri(p)
    def abs(self, x): return nps.s_abs(x)
    def max(self, a, b): return nps.s_ite(nps.s_gt(a, b), a, b)
    def min(self, a, b): return nps.s_ite(nps.s_lt(a, b), a, b)
    def sort(self, xs): return nps.sort_list(list(xs))
    def isleap(self, y): return shims.isleap(y)
    def to_int(self, x): return core.f2i(x)
    def conc(self, x): return self.ex.concretize(x) if isinstance(x, SymInt) else x

    # ---- obligations
    def check(self, label, cond, at=""):
        if isinstance(cond, np.ndarray):
            cond = nps.scal(cond)
        if isinstance(cond, (np.bool_,)):
            cond = bool(cond)
        self.obls.append((label, cond, at))

    def cover(self, label, cond=True):
        self.covers.append((label, cond))

    def known(self, kid, cond):
        """region of a recorded finding: excluded while it is listed"""
        if kid in self.known_ids:
            self.ex.assume(sb_not(cond))

    def is_known(self, kid):
        return kid in self.known_ids

    def private(self, modname, *names):
        """functions that are not public API: a case needing one that is gone is skipped"""
        m = self.mod(modname)
        fs = [getattr(m, n, None) for n in names]
        if any(f is None for f in fs):
            self.ex.stats["skipped"] = self.ex.stats.get("skipped", 0) + 1
            raise PathAbort()
        return fs[0] if len(fs) == 1 else fs

    def callp(self, f, *a, **k):
        """call a private function; another signature than today's skips the case"""
        try:
            inspect.signature(f).bind(*a, **k)
        except TypeError:
            self.ex.stats["skipped"] = self.ex.stats.get("skipped", 0) + 1
            raise PathAbort()
        return self.call(f, *a, **k)

    def note(self, k, v):
        self.notes[k] = v


# --------------------------------------------------------------------- models
def _num(m, v):
    r = m.eval(v, model_completion=True)
    if z3.is_int_value(r):
        return r.as_long()
    if z3.is_rational_value(r):
        return float(r.as_fraction())
    if z3.is_algebraic_value(r):
        return float(r.approx(20).as_fraction())
    return 0.0


def inputs_of(ex, m):
    out = {}
    for n in ex.input_order:
        kind, v, nb, sh, lo, hi = ex.inputs[n]
        if kind == "bool":
            out[n] = z3.is_true(m.eval(v, model_completion=True))
        elif kind == "int":
            out[n] = _num(m, v)
        else:
            if nb is not False and z3.is_true(m.eval(nb, model_completion=True)):
                out[n] = "nan"
            else:
                out[n] = float(_num(m, v))
    return out


def candidates(ex, neg, deadline, limit=8):
    """input assignments satisfying path /\\ neg, from the solver, most robust first"""
    seen_ = set()
    reals = [n for n in ex.input_order if ex.inputs[n][0] == "real"]

    def solve(tol, extra, ms, cong=True):
        s = z3.Solver()
        s.set("timeout", ms)
        s.set("random_seed", ex.seed)
        for c in ex.pc:
            s.add(c)
        s.add(z3.substitute(neg, (TOL, core.rv(tol))) if not isinstance(neg, bool) else z3.BoolVal(neg))
        for c in extra:
            s.add(c)
        if cong:
            for c in ex.congruence_axioms():
                s.add(c)
        t = time.time()
        r = s.check()
        ex.stats["queries"] += 1
        ex.stats["solver_s"] += time.time() - t
        return inputs_of(ex, s.model()) if r == z3.sat else None

    def pin(k, names):
        return [ex.inputs[n][1] == core.rv(round(float(ex.inputs[n][3][k]), 3)) for n in names]

    def spread():
        # values apart from each other and from round numbers
        cs = []
        for i, n in enumerate(reals):
            v = ex.inputs[n][1]
            cs.append(v * 7 == z3.ToReal(z3.Int(f"nice!{i}")))
        return cs

    plans = []
    lanes = [k for k in range(core.K) if ex.alive[k]] + [k for k in range(core.K) if not ex.alive[k]]
    lanes = lanes[:3]
    half = reals[::2]
    for tol in (1.0, 1e-2):
        for k in lanes:
            plans.append((tol, pin(k, reals), 2500))
    plans.append((1e-2, pin(lanes[0], half), 4000))
    plans.append((1e-2, pin(lanes[1], reals[1::2]), 4000))
    for tol in (10.0, 1.0, 1e-2, 1e-4, 2e-6):
        plans.append((tol, [], 6000))
    for k in lanes[:2]:
        plans.append((1e-4, pin(k, reals[: max(1, len(reals) * 2 // 3)]), 4000))
    n = 0
    for tol, extra, ms in plans:
        if deadline and time.time() > deadline:
            return
        try:
            inp = solve(tol, extra, ms)
        except z3.Z3Exception:
            continue
        if inp is None:
            continue
        key = json.dumps(inp, sort_keys=True)
        if key in seen_:
            continue
        seen_.add(key)
        yield inp
        n += 1
        if n >= limit:
            return


def discharge(ex, ctx, report):
    """decide all obligations of this path"""
    zs = []
    for label, cond, at in ctx.obls:
        report["labels"][label] = report["labels"].get(label, 0) + 1
        if isinstance(cond, bool) or isinstance(cond, np.bool_):
            if cond:
                ex.stats["proved"] += 1
                continue
            zs.append((label, True, at))
        else:
            z = cond.z if isinstance(cond, SymBool) else core.b_z(core.bz(cond))
            if z3.is_true(core.norm(z)):
                ex.stats["proved"] += 1
                continue
            zs.append((label, z3.Not(cond.z if isinstance(cond, SymBool) else core.b_z(core.bz(cond))), at))
    for label, cond in ctx.covers:
        if not report["covers"].get(label):
            z = core.bz(cond)
            report["covers"][label] = bool(z is True or (z is not False and ex._check(z) == z3.sat))
    if not zs:
        return []
    sub = [(l, z if isinstance(z, bool) else z3.substitute(z, (TOL, core.rv(TOL0))), a, z) for l, z, a in zs]
    sub = [(l, b_and(z), a, o) for l, z, a, o in sub]
    if len(sub) > 1 and all(not isinstance(z, bool) for _, z, _, _ in sub):
        r = ex._check(z3.Or(*[z for _, z, _, _ in sub]), ms=ex.check_ms)
        if r == z3.unsat:
            ex.stats["proved"] += len(sub)
            return []
    bad = []
    for l, z, a, o in sub:
        if isinstance(z, bool):
            bad.append((l, a, o, "false"))
            continue
        r = ex._check(z, ms=ex.check_ms)
        if r == z3.sat:
            # refine with congruence of the uninterpreted applications
            cong = ex.congruence_axioms()
            if cong:
                r = ex._check(z, *cong, ms=ex.check_ms)
        if r == z3.unsat:
            ex.stats["proved"] += 1
        else:
            bad.append((l, a, o, str(r)))
            if len(bad) >= 6:
                break
    return bad


def run_case(fn, params, known, replayer, tier="quick", seconds=60, extra_mods=None, opts=None):
    """explore every path of one harness case; returns a report dict"""
    opts = opts or {}
    deadline = time.time() + seconds
    ex = Explorer(deadline=deadline, **{k: v for k, v in opts.items() if k in ("feas_ms", "check_ms", "max_paths")})
    core.set_explorer(ex)
    ex.sqrt_exact = bool(opts.get("sqrt_exact"))
    ex.mono = bool(opts.get("mono"))
    ex.settle = bool(opts.get("settle"))
    report = dict(labels={}, covers={}, violations=[], undecided=[], errors=[], samples=[], complete=True)
    queue = [[]]
    tried = 0
    while queue:
        if ex.stats["paths"] >= ex.max_paths:
            report["complete"] = False
            report["errors"].append("path limit reached")
            break
        prefix = queue.pop()
        ex.start(prefix)
        bad = []
        try:
            ctx = SymCtx(ex, known, extra_mods() if extra_mods else None, tier)
            fn(ctx, **params)
            ex.stats["paths"] += 1
            bad = discharge(ex, ctx, report)
            if len(report["samples"]) < 2:
                report["samples"].append(dict(path=ex.stats["paths"], decisions=len(ex.trace),
                                              obligations=len(ctx.obls)))
        except PathAbort:
            ex.stats["infeasible"] += 1
        except PathBudget as e:
            report["complete"] = False
            report["errors"].append(str(e))
            break
        except EngineError as e:
            report["errors"].append("engine: " + str(e))
            bad = [("unmodelled", "", True, "engine")]
        except z3.Z3Exception as e:
            report["errors"].append("z3: " + str(e))
            bad = [("unmodelled", "", True, "engine")]
        except Exception as e:
            report["errors"].append("harness: " + "".join(traceback.format_exception_only(type(e), e)).strip() +
                                    " @ " + traceback.format_exc().strip().splitlines()[-2].strip()[:200])
            bad = [("unexpected exception", "", True, "exc")]
        queue.extend(ex.work)
        if bad:
            confirmed = False
            # bound the effort spent on candidates, more for the first failing path
            cdl = min(deadline + 60, time.time() + (60 if tried < 3 else 15))
            for l, a, neg, why in bad[:3]:
                if l in [u["label"] for u in report["undecided"]] and tried > 6:
                    continue
                for inp in candidates(ex, neg, cdl, 8 if tried < 4 else 3):
                    tried += 1
                    res = replayer.run(params, inp)
                    if res.get("failed"):
                        report["violations"].append(dict(label=res["failed"][0]["label"], at=res["failed"][0].get("at"),
                                                         detail=res["failed"][0].get("detail"), inputs=inp, params=params,
                                                         symbolic_label=l))
                        confirmed = True
                        break
                if confirmed:
                    break
            if confirmed:
                report["complete"] = False
                break
            for l, a, neg, why in bad:
                report["undecided"].append(dict(label=l, at=a, why=why))
            if len(report["undecided"]) > 40:
                report["complete"] = False
                report["errors"].append("too many undecided obligations")
                break
    report["stats"] = ex.stats
    report["functions"] = sorted(f"{f}:{q}" for f, q, n in seen)
    return report
