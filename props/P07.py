"""Pearson Type III SPI and SPEI: parameters of each calendar step and the value of each accumulation."""
import math
import _spec as S

BOUNDS = ("transform with given parameters (positive, negative, no skew, with and without a share of zeros): 3 years of months, every value of "
          "2 calendar months any real in 0..400 (zeros, traces) or missing, scales 1 and 2; fitting: 5 or 6 years, one calendar month with "
          "2 symbolic values (0..500, zero, or missing) among fixed ones, calibration over the full record or a part; calendar months with fewer than "
          "4 usable values; SPEI with symbolic precipitation and PET; fit and transform in one call with symbolic values outside the calibration.")
OUTSIDE = ("more symbolic values at a time; nearly constant samples; calendar steps without a fit, apart from their parameters; scipy's "
           "Pearson and normal distribution functions are taken as given.")
OPTS = dict(check_ms=15000, settle=True)
SETS = {
    "mixed": dict(prob_zero=[0.0, 0.2], loc=[40.0, 55.5], scale=[25.0, 30.0], skew=[0.8, 1.7]),
    "negative": dict(prob_zero=[0.0, 0.25], loc=[140.0, 155.5], scale=[25.0, 60.0], skew=[-0.9, -1.5]),
    "mild": dict(prob_zero=[0.0, 0.2], loc=[120.0, 150.5], scale=[20.0, 30.0], skew=[0.5, 0.9]),
    "steep": dict(prob_zero=[0.3, 0.0], loc=[60.0, 90.5], scale=[50.0, 70.0], skew=[2.6, -2.4]),
    "none": dict(prob_zero=[0.1, 0.0], loc=[40.0, 55.5], scale=[25.0, 30.0], skew=[0.0, 0.5]),
}


def full(ctx, s):
    return {k: [v[i % 2] for i in range(12)] for k, v in SETS[s].items()}


def compare(ctx, label, got, want):
    ctx.check(label + " [length]", tuple(got.shape) == (len(want),))
    if tuple(got.shape) == (len(want),):
        for i, (g, w) in enumerate(zip(ctx.items(got), want)):
            if w is not None:
                ctx.check(label, ctx.close(g, w), at=str(i))


def h_transform(ctx, sets, scale, where, spei=False, months=30):
    ind = ctx.mod("climate_indices.indices")
    cp = ctx.mod("climate_indices.compute")
    xs = [float(11 + (i * 29) % 90) for i in range(months)]
    for i in where:
        xs[i] = ctx.real("p%d" % i, 0.0, 400.0, nan=True)
        S.present(ctx, xs[i])
    p = full(ctx, sets)
    if spei:
        es = [float(5 + (i * 17) % 60) for i in range(months)]
        es[where[0]] = ctx.real("e", 0.0, 300.0)
        # parameters around the offset
        p["loc"] = [v + 1000.0 * scale for v in p["loc"]]
        sm = S.sums(ctx, [x - e + 1000.0 for x, e in zip(xs, es)], scale)
    else:
        sm = S.sums(ctx, xs, scale)
    want = [S.pearson_index(ctx, x, p["prob_zero"][i % 12], p["loc"][i % 12], p["scale"][i % 12], p["skew"][i % 12])
            for i, x in enumerate(sm)]
    fp = {k: ctx.arr(v) for k, v in p.items()}
    if spei:
        o = ctx.call(ind.spei, ctx.arr(xs), ctx.arr(es), scale, ind.Distribution.pearson, cp.Periodicity.monthly, 1990, 1990, 1991, fp)
    else:
        o = ctx.call(ind.spi, ctx.arr(xs), scale, ind.Distribution.pearson, 1990, 1990, 1991, cp.Periodicity.monthly, fp)
    ctx.check("index returns", o.ok())
    if o.ok():
        compare(ctx, "Pearson index of every month", o.val, want)


def h_direct(ctx, sets, where, months, given=True, two_d=False):
    """the transformation itself, before the index is limited to the valid range"""
    cp = ctx.mod("climate_indices.compute")
    xs = [float(11 + (i * 29) % 90) for i in range(months)]
    for i in where:
        xs[i] = ctx.real("p%d" % i, 0.0, 400.0, nan=True)
        S.present(ctx, xs[i])
    p = full(ctx, sets)
    want = [S.pearson_index(ctx, x, p["prob_zero"][i % 12], p["loc"][i % 12], p["scale"][i % 12], p["skew"][i % 12], clip=S.unclipped)
            for i, x in enumerate(xs)]
    v = ctx.arr(xs)
    if two_d:
        v = v.reshape(months // 12, 12)
    o = ctx.call(cp.transform_fitted_pearson, v, 1990, 1990, 1991, cp.Periodicity.monthly,
                 *[ctx.arr(p[k]) for k in ("prob_zero", "loc", "scale", "skew")])
    ctx.check("transformation returns", o.ok())
    if not o.ok():
        return
    rows = -(-months // 12)
    ctx.check("whole years", tuple(o.val.shape) == (rows, 12))
    if tuple(o.val.shape) == (rows, 12):
        for i, g in enumerate(ctx.items(o.val)):
            ctx.check("normal score of every month", ctx.close(g, want[i]) if i < months else ctx.isnan(g), at=str(i))


def lmom(ctx, xs):
    """Hosking's estimators of location, scale, skew"""
    s = ctx.sort(xs)
    n = len(s)
    b0 = ctx.sum(s) / n
    b1 = ctx.sum([i * x for i, x in enumerate(s)]) / (n * (n - 1))
    b2 = ctx.sum([i * (i - 1) * x for i, x in enumerate(s)]) / (n * (n - 1) * (n - 2))
    l2, l3 = 2 * b1 - b0, 6 * b2 - 6 * b1 + b0
    ctx.assume(l2 > 1e-3)
    t3 = ctx.div(l3, l2)
    a = ctx.abs(t3)
    ctx.assume(ctx.And(a < 0.999, a > 1e-5, ctx.abs(a - 0.333333333) > 1e-6))
    if bool(a < 0.333333333):
        t = 3 * math.pi * a * a
        alpha = ctx.div(1 + 0.2906 * t, t * (1 + t * (0.1882 + t * 0.0442)))
    else:
        t = 1 - a
        alpha = ctx.div(t * (0.36067 + t * (-0.59567 + t * 0.25361)), 1 + t * (-2.78861 + t * (2.56096 + t * -0.77045)))
    root = ctx.sqrt(alpha)
    return (b0, math.sqrt(math.pi) * l2 * ctx.exp(ctx.lgamma(alpha) - ctx.lgamma(alpha + 0.5)) * root,
            ctx.ite(t3 < 0, ctx.div(-2.0, root), ctx.div(2.0, root)))


def fit(ctx, col):
    there = [x for x in col if S.present(ctx, x)]
    zeros = len([x for x in there if bool(x == 0)])
    if len(there) - zeros < 4:
        return 0.0, 0.0, 0.0, 0.0
    return (zeros / len(there),) + lmom(ctx, there)


def h_fit(ctx, years, col, where, cal, zeros=()):
    cp = ctx.mod("climate_indices.compute")
    xs = [float(11 + (i * 29) % 91 + (i // 12) * 3) for i in range(years * 12)]
    for y in zeros:
        xs[12 * y + col] = 0.0
    for y in where:
        xs[12 * y + col] = ctx.real("p%d" % y, 0.0, 500.0, nan=True)
        S.present(ctx, xs[12 * y + col]) and bool(xs[12 * y + col] == 0)
    rows = [xs[12 * y:12 * y + 12] for y in range(years)]
    want = [fit(ctx, [r[j] for r in rows[cal[0]:cal[1] + 1]]) for j in (col, (col + 5) % 12)]
    o = ctx.call(cp.pearson_parameters, ctx.arr(xs), 1990, 1990 + cal[0], 1990 + cal[1], cp.Periodicity.monthly)
    ctx.check("pearson_parameters returns", o.ok())
    if not o.ok():
        return
    for j, w in zip((col, (col + 5) % 12), want):
        for name, got, exp in zip(("share of zeros", "location", "scale", "skew"), o.val, w):
            ctx.check("%s of the calendar month" % name, ctx.close(ctx.items(got)[j], exp), at=str(j))


def h_whole(ctx, years, col, where, cal, spei=False):
    """fitting and transforming in one call; the symbolic values lie outside the calibration"""
    ind = ctx.mod("climate_indices.indices")
    cp = ctx.mod("climate_indices.compute")
    xs = [float(11 + (i * 29) % 91 + (i // 12) * 3) for i in range(years * 12)]
    xs[12 * (years - 1) + col] = 0.0
    for y in where:
        xs[12 * y + col] = ctx.real("p%d" % y, 0.0, 500.0, nan=True)
        S.present(ctx, xs[12 * y + col]) and bool(xs[12 * y + col] == 0)
    if spei:
        es = [float(3 + (i * 7) % 40) for i in range(years * 12)]
        vals = [x - e + 1000.0 for x, e in zip(xs, es)]
    else:
        vals = xs
    c = [vals[12 * y + col] for y in range(years)]
    p = fit(ctx, c[cal[0]:cal[1] + 1])
    if not bool(p[2] > 0):
        return
    want = [S.pearson_index(ctx, v, p[0], p[1], p[2], p[3]) for v in c]
    if spei:
        o = ctx.call(ind.spei, ctx.arr(xs), ctx.arr(es), 1, ind.Distribution.pearson, cp.Periodicity.monthly, 1990, 1990 + cal[0], 1990 + cal[1])
    else:
        o = ctx.call(ind.spi, ctx.arr(xs), 1, ind.Distribution.pearson, 1990, 1990 + cal[0], 1990 + cal[1], cp.Periodicity.monthly)
    ctx.check("index returns", o.ok())
    if not o.ok():
        return
    got = ctx.items(o.val)
    for y in range(years):
        ctx.check("Pearson index under the fit of the calibration period", ctx.close(got[12 * y + col], want[y]), at=str(y))


def CASES(tier):
    big = tier != "quick"
    out = []
    for s in SETS:
        for scale, where in [(1, [2, 3, 15]), (2, [7, 14]), (1, [0, 29, 11])] + ([(3, [8, 9]), (1, [4, 16, 28, 5])] if big else []):
            out.append(dict(name="transform %s scale=%d %s" % (s, scale, where), fn="h_transform", params=dict(sets=s, scale=scale, where=where)))
        out.append(dict(name="transform SPEI %s" % s, fn="h_transform", params=dict(sets=s, scale=1, where=[5, 17], spei=True)))
        out.append(dict(name="transform SPEI %s scale 2" % s, fn="h_transform", params=dict(sets=s, scale=2, where=[5], spei=True)))
        for where, months, two_d in [([0, 13], 24, True), ([12, 11], 16, False)]:
            out.append(dict(name="direct %s %s" % (s, where), fn="h_direct", params=dict(sets=s, where=where, months=months, two_d=two_d)))
    for years, col, where, cal, zeros in [(5, 3, [1], [0, 4], []), (6, 0, [0, 4], [1, 5], []), (6, 11, [2], [1, 5], [3]), (5, 7, [2], [0, 4], [1]),
                                          (6, 3, [1, 2], [0, 5], [])]:
        out.append(dict(name="fit years=%d month=%d %s cal=%s zeros=%s" % (years, col, where, cal, zeros), fn="h_fit",
                        params=dict(years=years, col=col, where=where, cal=cal, zeros=zeros)))
    for years, col, where, cal in [(6, 3, [0], [1, 5]), (7, 8, [6], [0, 4]), (7, 2, [0, 1], [2, 6]), (7, 11, [5, 6], [0, 4])]:
        for spei in (False, True):
            out.append(dict(name="whole %s years=%d %s cal=%s" % ("SPEI" if spei else "SPI", years, where, cal), fn="h_whole",
                            params=dict(years=years, col=col, where=where, cal=cal, spei=spei)))
    return out
