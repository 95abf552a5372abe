"""No public computation modifies the arrays or dictionaries it is given, and calling it again gives the same result."""
import _spec as S

BOUNDS = ("every public function of indices, compute, eto, lmoments, utils and palmer; 1-D and 2-D monthly input of 24..60 values and daily input of "
          "365..732 values; 3 to 5 symbolic values each (negative, zero or missing where the function accepts it), the others fixed; with and without fitting parameters.")
OUTSIDE = "longer series; more symbolic values at a time; masked arrays; read-only arrays."
OPTS = dict(check_ms=10000)


def values(ctx, n, at, lo, hi, nan=True, tag="v", m=83):
    xs = [float(10 + (i * 37) % m) for i in range(n)]
    for i in at:
        xs[i] = ctx.real("%s%d" % (tag, i), lo, hi, nan=nan)
    return xs


def shaped(ctx, xs, two_d, width=12):
    v = ctx.arr(xs)
    return v.reshape(len(xs) // width, width) if two_d else v


def twice(ctx, f, args, kw=None, result=True):
    """call f twice on the same arguments; the arguments must keep their values and the results must agree"""
    kw = kw or {}
    arrays, dicts = [], []
    for k, a in list(enumerate(args)) + list(kw.items()):
        if isinstance(a, dict):
            dicts.append((k, a, sorted(a)))
            arrays += [("%s[%s]" % (k, n), v, ctx.copy(v)) for n, v in a.items()]
        elif hasattr(a, "shape"):
            arrays.append((str(k), a, ctx.copy(a)))
    o = ctx.call(f, *args, **kw)
    ctx.check("returns", o.ok())
    if not o.ok():
        return None
    for k, a, was in arrays:
        ctx.check("array argument keeps its shape", tuple(a.shape) == tuple(was.shape), at=k)
        ctx.check("array argument keeps its values", ctx.same_exact(a, was), at=k)
    for k, d, keys in dicts:
        ctx.check("dictionary keeps its keys", sorted(d) == keys, at=str(k))
    if result:
        first = [ctx.copy(x) for x in flat(o.val)]
        p = ctx.call(f, *args, **kw)
        ctx.check("returns again", p.ok())
        if p.ok():
            again = flat(p.val)
            ctx.check("as many results", len(again) == len(first))
            for x, y in zip(first, again):
                ctx.same_array("same result again", y, x)
    return o.val


def flat(v):
    if isinstance(v, dict):
        return [x for k in sorted(v) for x in flat(v[k])]
    if isinstance(v, (tuple, list)):
        return [x for e in v for x in flat(e)]
    return [v] if hasattr(v, "shape") and v.shape else []


def fitted(ctx, dist, off=0.0, holes=()):
    """fitting parameters, with those of some calendar months missing"""
    fp = fitted_all(ctx, dist, off)
    for k in holes:
        for a in fp.values():
            a[k] = float("nan")
    return fp


def fitted_all(ctx, dist, off):
    if dist == "gamma":
        return dict(alpha=ctx.arr([2.0 + i / 10 for i in range(12)]), beta=ctx.arr([30.0 - i for i in range(12)]))
    return dict(prob_zero=ctx.arr([0.05] * 12), loc=ctx.arr([60.0 + off + i for i in range(12)]), scale=ctx.arr([30.0 + i for i in range(12)]),
                skew=ctx.arr([0.9 - i / 5 + 0.01 for i in range(12)]))


def h_index(ctx, fn, dist, scale, two_d, fit, lo=-20.0, holes=()):
    ind = ctx.mod("climate_indices.indices")
    cp = ctx.mod("climate_indices.compute")
    at = (3, 14, 30) if scale == 1 and fit else (3, 26)
    xs = values(ctx, 60, at, lo, 300.0)
    for i in at:
        S.present(ctx, xs[i]) and bool(xs[i] <= 0)
    M, D = cp.Periodicity.monthly, ind.Distribution[dist]
    fp = [fitted(ctx, dist, 1000.0 if fn == "spei" else 0.0, holes)] if fit else []
    v = shaped(ctx, xs, two_d)
    if fn == "spi":
        twice(ctx, ind.spi, [v, scale, D, 1990, 1990, 1994, M] + fp)
    else:
        e = values(ctx, 60, (2,), 0.0, 200.0, tag="e", m=31)
        twice(ctx, ind.spei, [v, shaped(ctx, e, two_d), scale, D, M, 1990, 1990, 1994] + fp)


def h_fit(ctx, which, two_d):
    cp = ctx.mod("climate_indices.compute")
    xs = values(ctx, 60, (3, 15), 0.0, 300.0)
    for i in (3, 15):
        S.present(ctx, xs[i]) and bool(xs[i] <= 0)
    v = shaped(ctx, xs, two_d)
    f = getattr(cp, which + "_parameters")
    twice(ctx, f, [v, 1990, 1990, 1994, cp.Periodicity.monthly])


def h_fit_one(ctx, two_d):
    cp = ctx.mod("climate_indices.compute")
    xs = values(ctx, 60, (3,), 200.0, 300.0)
    S.present(ctx, xs[3])
    xs[4] = 0.0
    twice(ctx, cp.pearson_parameters, [shaped(ctx, xs, two_d), 1990, 1990, 1994, cp.Periodicity.monthly])


def h_transform(ctx, which, two_d, holes=()):
    cp = ctx.mod("climate_indices.compute")
    xs = values(ctx, 24, (3, 14, 20), 0.0, 300.0)
    for i in (3, 14, 20):
        S.present(ctx, xs[i]) and bool(xs[i] <= 0)
    p = fitted(ctx, which, holes=holes)
    f = getattr(cp, "transform_fitted_" + which)
    twice(ctx, f, [shaped(ctx, xs, two_d), 1990, 1990, 1991, cp.Periodicity.monthly] + list(p.values()))


def h_scale(ctx, two_d, scale):
    cp = ctx.mod("climate_indices.compute")
    xs = values(ctx, 24, (0, 3, 14, 23), -20.0, 300.0)
    for i in (0, 3, 14, 23):
        S.present(ctx, xs[i]) and bool(xs[i] < 0)
    twice(ctx, cp.scale_values, [shaped(ctx, xs, two_d), scale, cp.Periodicity.monthly])
    twice(ctx, cp.sum_to_scale, [ctx.arr(xs), scale])


def h_pnp(ctx, scale):
    ind = ctx.mod("climate_indices.indices")
    cp = ctx.mod("climate_indices.compute")
    xs = values(ctx, 36, (0, 3, 14, 35), -20.0, 300.0)
    for i in (0, 3, 14, 35):
        S.present(ctx, xs[i]) and bool(xs[i] < 0)
    twice(ctx, ind.percentage_of_normal, [ctx.arr(xs), scale, 1990, 1990, 1991, cp.Periodicity.monthly])


def h_pet(ctx, two_d, at, lo, hi):
    ind = ctx.mod("climate_indices.indices")
    xs = [12.0 + (i * 7) % 11 for i in range(24)]
    for i in at:
        xs[i] = ctx.real("t%d" % i, lo, hi, nan=lo < 0)
        S.present(ctx, xs[i]) and bool(xs[i] < 0)
    twice(ctx, ind.pet, [shaped(ctx, xs, two_d), 38.0, 2000])


def h_hargreaves(ctx, two_d):
    eto = ctx.mod("climate_indices.eto")
    n = 732 if two_d else 400
    a = []
    for k, base in (("min", 2.0), ("max", 15.0), ("mean", 8.0)):
        xs = [base + (i * 7) % 5 for i in range(n)]
        for i in (0, 59, n - 1):
            xs[i] = ctx.real("%s%d" % (k, i), base - 5.0, base + 5.0, nan=True)
        a.append(shaped(ctx, xs, two_d, 366))
    twice(ctx, eto.eto_hargreaves, a + [38.0])


def h_pci(ctx, n):
    ind = ctx.mod("climate_indices.indices")
    xs = [float((i * 37) % 11) for i in range(n)]
    for i in (0, 31, 59, n - 1):
        xs[i] = ctx.real("r%d" % i, 0.0, 50.0)
    twice(ctx, ind.pci, [ctx.arr(xs)])


def h_days(ctx, leap):
    u = ctx.mod("climate_indices.utils")
    y = 2004 if leap else 2003
    n = 366 if leap else 365
    xs = [float((i * 37) % 11) for i in range(n)]
    for i in (0, 58, 59, n - 1):
        xs[i] = ctx.real("r%d" % i, 0.0, 50.0, nan=True)
    v = twice(ctx, u.transform_to_366day, [ctx.arr(xs), y, 1])
    if v is not None:
        twice(ctx, u.transform_to_gregorian, [v, y])


def h_small(ctx):
    u = ctx.mod("climate_indices.utils")
    lm = ctx.mod("climate_indices.lmoments")
    a, b = ctx.reals("a", 4, -9.0, 9.0), ctx.reals("b", 4, -9.0, 9.0)
    twice(ctx, u.sign_change, [a, b])
    twice(ctx, u.rmse, [a, b])
    twice(ctx, u.get_tolerance, [a])
    twice(ctx, u.count_zeros_and_non_missings, [a])
    twice(ctx, u.is_data_valid, [a])
    twice(ctx, u.reshape_to_2d, [a, 3])
    xs = [9.0, 4.0, 7.0, 1.0, ctx.real("x", 0.0, 20.0, nan=True)]
    S.present(ctx, xs[4])
    twice(ctx, lm.fit, [ctx.arr(xs)])


def h_palmer(ctx, two_d, fit, lo, hi):
    """the last month is symbolic; the calibration ends a year before it"""
    pal = ctx.mod("climate_indices.palmer")
    ps = [2.0 + (i * 7) % 5 / 2 for i in range(36)]
    es = [1.0 + (i * 5) % 7 / 2 for i in range(36)]
    ps[35] = ctx.real("p", lo, hi)
    bool(ps[35] < 0)
    fp = [dict(alpha=ctx.arr([0.9] * 12), beta=ctx.arr([0.2] * 12), gamma=ctx.arr([0.1] * 12), delta=ctx.arr([0.3] * 12))] if fit else []
    twice(ctx, pal.pdsi, [shaped(ctx, ps, two_d), shaped(ctx, es, two_d), 5.0, 1990, 1990, 1991] + fp)


def CASES(tier):
    out = []
    def add(name, h, **p):
        out.append(dict(name=name, fn=h, params=p))
    for fn in ("spi", "spei"):
        for dist in ("gamma", "pearson"):
            for scale in (1, 3):
                for two_d in (False, True):
                    add("%s %s scale=%d 2d=%s" % (fn, dist, scale, two_d), "h_index", fn=fn, dist=dist, scale=scale, two_d=two_d, fit=True)
        add("%s gamma fitting" % fn, "h_index", fn=fn, dist="gamma", scale=1, two_d=True, fit=False)
        add("%s gamma fitting, scale 2" % fn, "h_index", fn=fn, dist="gamma", scale=2, two_d=False, fit=False)
    for two_d in (False, True):
        add("gamma_parameters 2d=%s" % two_d, "h_fit", which="gamma", two_d=two_d)
        add("pearson_parameters 2d=%s" % two_d, "h_fit_one", two_d=two_d)
        for d in ("gamma", "pearson"):
            add("transform %s 2d=%s missing parameters" % (d, two_d), "h_transform", which=d, two_d=two_d, holes=[2, 5])
            for fn in ("spi", "spei"):
                add("%s %s 2d=%s missing parameters" % (fn, d, two_d), "h_index", fn=fn, dist=d, scale=1, two_d=two_d, fit=True, holes=[2, 5])
            add("transform %s 2d=%s" % (d, two_d), "h_transform", which=d, two_d=two_d)
        add("pet frost 2d=%s" % two_d, "h_pet", two_d=two_d, at=(0, 5, 17), lo=-30.0, hi=-0.1)
        add("pet 2d=%s" % two_d, "h_pet", two_d=two_d, at=(5,), lo=5.0, hi=30.0)
        add("hargreaves 2d=%s" % two_d, "h_hargreaves", two_d=two_d)
        for s in (1, 2):
            add("scale_values scale=%d 2d=%s" % (s, two_d), "h_scale", two_d=two_d, scale=s)
        for fit in (False, True):
            add("palmer 2d=%s fit=%s" % (two_d, fit), "h_palmer", two_d=two_d, fit=fit, lo=2.9, hi=3.1)
            add("palmer negative 2d=%s fit=%s" % (two_d, fit), "h_palmer", two_d=two_d, fit=fit, lo=-1.0, hi=-0.1)
    for s in (1, 2):
        add("percentage of normal scale=%d" % s, "h_pnp", scale=s)
    for n in (365, 366):
        add("pci %d" % n, "h_pci", n=n)
    for leap in (False, True):
        add("day conversions leap=%s" % leap, "h_days", leap=leap)
    add("helpers", "h_small")
    return out
