"""Replay side: the same harness on concrete inputs against the real code, run
by the interpreter the project uses (/opt/venv).  Reads JSON requests on stdin."""
import importlib
import importlib.util
import inspect
import json
import math
import os
import sys
import warnings

warnings.simplefilter("ignore")
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(os.environ.get("VERIF_REPO", "/repo"), "src"))

import logging
logging.disable(logging.CRITICAL)
import numpy as np
import scipy.special
import scipy.stats
import calendar

np.seterr(all="ignore")
RTOL = 1e-6


class Abort(BaseException):
    pass


class Outcome(object):
    def __init__(self, val=None, exc=None):
        self.val, self.exc = val, exc

    def ok(self):
        return self.exc is None

    def raised(self, *names):
        return self.exc is not None and any(c.__name__ in names for c in type(self.exc).__mro__)


class RealCtx(object):
    symbolic = False

    def __init__(self, inputs, known, tier="quick"):
        self.inputs = inputs
        self.known_ids = known
        self.np = np
        self.failed = []
        self.passed = 0
        self.tier = tier

    def mod(self, name):
        return importlib.import_module(name)

    def call(self, f, *a, **k):
        try:
            return Outcome(f(*a, **k))
        except Exception as e:
            return Outcome(exc=e)

    # ---- command line tools: real files in a scratch directory, tasks of the pool in this process
    tmp = None

    def cli(self, name, cpus=4, order="in order", same=False):
        import multiprocessing
        sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
        import mpstub
        env = mpstub.Env(cpus, order, same, lambda: [m for k, m in sys.modules.items() if k.startswith("climate_indices.")])
        multiprocessing.cpu_count = lambda: env.cpus
        multiprocessing.Pool = lambda processes=None, initializer=None, initargs=(), maxtasksperchild=None: mpstub.Pool(
            env, processes, initializer, initargs)
        return importlib.import_module("climate_indices." + name)

    def fresh(self):
        for k in [k for k in sys.modules if k == "climate_indices" or k.startswith("climate_indices.")]:
            del sys.modules[k]

    def path(self, name):
        if self.tmp is None:
            import tempfile
            self.tmp = tempfile.mkdtemp(prefix="verif_nc_")
        return os.path.join(self.tmp, name)

    def cleanup(self):
        if self.tmp is not None:
            import shutil
            shutil.rmtree(self.tmp, ignore_errors=True)

    def nc_write(self, name, coords, vars, aux=()):
        import xarray as xr
        sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
        from mpstub import times
        cs = {}
        for k, v in coords.items():
            cs[k] = ((k,), times(v) if k == "time" else np.asarray(v), {"units": "degrees"} if k in ("lat", "lon") else {})
        vs = {}
        for k, (dims, a, attrs) in vars.items():
            (cs if k in aux else vs)[k] = (dims, np.asarray(a), attrs)
        p = self.path(name)
        ds = xr.Dataset(vs, coords=cs)
        ds.to_netcdf(p, engine="h5netcdf")
        ds.close()
        return p

    def nc_read(self, path):
        import xarray as xr
        if not os.path.exists(path):
            return None
        with xr.open_dataset(path) as ds:
            return dict((k, (ds[k].dims, np.array(ds[k].values))) for k in ds.variables)

    def nc_list(self):
        return sorted(os.listdir(self.tmp)) if self.tmp else []

    def argv(self, args):
        sys.argv = [str(a) for a in args]

    def _v(self, name):
        v = self.inputs[name]
        return np.float64("nan") if v == "nan" else v

    def real(self, name, lo=None, hi=None, nan=False):
        v = np.float64(self._v(name))
        if not nan and math.isnan(v):
            raise Abort("nan not allowed")
        if not math.isnan(v):
            if lo is not None and v < lo:
                raise Abort("below range")
            if hi is not None and v > hi:
                raise Abort("above range")
        return v

    def int(self, name, lo, hi):
        v = int(self._v(name))
        if not lo <= v <= hi:
            raise Abort("int range")
        return v

    def bool(self, name):
        return bool(self._v(name))

    def choice(self, name, options):
        return options[int(self._v(name))]

    def reals(self, name, shape, lo=None, hi=None, nan=False):
        if isinstance(shape, int):
            shape = (shape,)
        o = np.empty(shape, dtype=float)
        for idx in np.ndindex(*shape):
            o[idx] = self.real("%s[%s]" % (name, ",".join(map(str, idx))), lo, hi, nan)
        return o

    def arr(self, x, dtype=float):
        return np.array(x, dtype=dtype)

    def copy(self, a):
        return a.copy()

    def assume(self, c):
        if not c:
            raise Abort("assumption")

    def And(self, *cs):
        cs = cs[0] if len(cs) == 1 and isinstance(cs[0], (list, tuple)) else cs
        return all(bool(c) for c in cs)

    def Or(self, *cs):
        cs = cs[0] if len(cs) == 1 and isinstance(cs[0], (list, tuple)) else cs
        return any(bool(c) for c in cs)

    def Not(self, c):
        return not c

    def Implies(self, a, b):
        return (not a) or bool(b)

    def ite(self, c, a, b):
        return a if c else b

    def isnan(self, x):
        return bool(np.isnan(x))

    def isinf(self, x):
        return bool(np.isinf(x))

    def eq(self, a, b):
        return bool(a == b or (np.isnan(a) and np.isnan(b)))

    def close(self, a, b, scale=1.0):
        a, b = float(a), float(b)
        if math.isnan(a) or math.isnan(b):
            return math.isnan(a) and math.isnan(b)
        if math.isinf(a) or math.isinf(b):
            return a == b
        return a == b or abs(a - b) <= RTOL * max(1.0, abs(a), abs(b)) * max(scale, 1.0)

    def same_array(self, label, got, want, scale=1.0):
        want = np.asarray(want, dtype=float)
        if not isinstance(got, np.ndarray) or got.shape != want.shape:
            self.check(label + " [shape]", False, detail="got %s want %s" % (getattr(got, "shape", type(got)), want.shape))
            return
        for idx in np.ndindex(*want.shape):
            self.check(label, self.close(got[idx], want[idx], scale), at=str(idx),
                       detail="got %r want %r" % (float(got[idx]), float(want[idx])))

    def same_exact(self, a, b):
        a, b = np.asarray(a), np.asarray(b)
        return a.shape == b.shape and bool(np.all((a == b) | (np.isnan(a) & np.isnan(b))))

    def items(self, a):
        return list(np.asarray(a).reshape(-1))

    def sum(self, xs):
        r = np.float64(0.0)
        for x in xs:
            r = r + x
        return r

    def fl(self, x): return np.float64(x)
    def div(self, a, b): return np.float64(a) / np.float64(b)
    def log(self, x): return np.log(np.float64(x))
    def log10(self, x): return np.log10(np.float64(x))
    def sqrt(self, x): return np.sqrt(np.float64(x))
    def exp(self, x): return np.exp(np.float64(x))
    def pow(self, a, b): return np.power(np.float64(a), np.float64(b))
    def sin(self, x): return np.sin(x)
    def cos(self, x): return np.cos(x)
    def tan(self, x): return np.tan(x)
    def acos(self, x): return np.arccos(x)
    def lgamma(self, x): return scipy.special.gammaln(x)
    def gamma_cdf(self, x, a, scale): return scipy.stats.gamma.cdf(x, a, scale=scale)
    def pearson3_cdf(self, x, skew, loc, scale): return np.float64(scipy.stats.pearson3.cdf(x, skew, loc, scale))
    def ppf(self, p): return np.float64(scipy.stats.norm.ppf(p))
    def abs(self, x): return abs(x)
    def max(self, a, b): return a if a > b else b
    def min(self, a, b): return a if a < b else b
    def sort(self, xs): return list(np.sort(np.array(xs, dtype=float)))
    def isleap(self, y): return calendar.isleap(y)
    def to_int(self, x): return int(x)
    def conc(self, x): return x

    def check(self, label, cond, at="", detail=""):
        if not bool(cond):
            self.failed.append(dict(label=label, at=at, detail=detail))
        else:
            self.passed += 1

    def cover(self, label, cond=True):
        pass

    def known(self, kid, cond):
        if kid in self.known_ids and bool(cond):
            raise Abort("known finding " + kid)

    def is_known(self, kid):
        return kid in self.known_ids

    def private(self, modname, *names):
        m = self.mod(modname)
        fs = [getattr(m, n, None) for n in names]
        if any(f is None for f in fs):
            raise Abort("not there: %s" % (names,))
        return fs[0] if len(fs) == 1 else fs

    def callp(self, f, *a, **k):
        try:
            inspect.signature(f).bind(*a, **k)
        except TypeError:
            raise Abort("another signature")
        return self.call(f, *a, **k)

    def note(self, k, v):
        pass


_props = {}


def load_prop(path):
    if path not in _props:
        sys.path.insert(0, os.path.dirname(path))
        spec = importlib.util.spec_from_file_location("prop_" + os.path.basename(path)[:-3], path)
        m = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(m)
        _props[path] = m
    return _props[path]


def run(req):
    for k in [k for k in sys.modules if k == "climate_indices" or k.startswith("climate_indices.")]:
        del sys.modules[k]
    m = load_prop(req["prop"])
    ctx = RealCtx(req["inputs"], set(req.get("known", [])))
    try:
        try:
            getattr(m, req["fn"])(ctx, **req["params"])
        finally:
            ctx.cleanup()
    except Abort as e:
        if not ctx.failed:
            return dict(aborted=str(e), failed=[], passed=ctx.passed)
    except KeyError as e:
        if str(e).strip("'\"").split("[")[0] in [k.split("[")[0] for k in req["inputs"]] or True:
            import traceback
            tb = traceback.format_exc()
            if "self.inputs[name]" in tb:
                return dict(aborted="input not in model: %s" % e, failed=ctx.failed, passed=ctx.passed)
            ctx.failed.append(dict(label="unexpected exception", at="", detail=tb[-400:]))
    except Exception as e:
        import traceback
        ctx.failed.append(dict(label="unexpected exception", at="", detail=traceback.format_exc()[-600:]))
    return dict(failed=ctx.failed[:5], passed=ctx.passed)


def main():
    out = os.fdopen(os.dup(1), "w")
    os.dup2(2, 1)
    sys.stdout = sys.stderr
    for line in sys.stdin:
        line = line.strip()
        if not line:
            continue
        try:
            r = run(json.loads(line))
        except BaseException as e:
            import traceback
            r = dict(error=traceback.format_exc()[-800:], failed=[])
        out.write(json.dumps(r) + "\n")
        out.flush()


if __name__ == "__main__":
    main()
