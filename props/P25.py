"""Supplying fitting parameters."""
import _spec as S

BOUNDS = ("monthly data of 5 years (and 5 years plus 4 months), scales 1 and 3, one symbolic value (gamma 1..500, Pearson 300..500, or missing), daily data of 4 years with one symbolic "
          "value; given parameters with 14 to 26 months, all symbolic or some of which are and may be zero or missing; gamma and Pearson, SPI and SPEI; for SPEI every mixture of current and deprecated key names.")
OUTSIDE = "parameters that are arrays of another shape; masked arrays."
OPTS = dict(check_ms=15000)
G = ("alpha", "beta")
P = ("prob_zero", "loc", "scale", "skew")
OLD = dict(alpha="alphas", beta="betas", skew="skews", scale="scales", loc="locs", prob_zero="probabilities_of_zero")


def h_reuse(ctx, dist, scale, where, n=60, daily=False, spei=False):
    ind = ctx.mod("climate_indices.indices")
    cp = ctx.mod("climate_indices.compute")
    steps = 366 if daily else 12
    per = cp.Periodicity.daily if daily else cp.Periodicity.monthly
    xs = [float(10 + (i * 37) % 83 + (i // steps) * 4) for i in range(n)]
    xs[where] = ctx.real("x", 1.0 if dist == "gamma" else 300.0, 500.0, nan=True)
    S.present(ctx, xs[where])
    y1 = 1990 + (n - 1) // steps
    D = ind.Distribution[dist]
    es = [float(2 + (i * 7) % 31) for i in range(n)]
    if spei:
        scaled = cp.sum_to_scale(ctx.arr([x - e + 1000.0 for x, e in zip(xs, es)]), scale)
    else:
        scaled = cp.scale_values(ctx.arr(xs), scale, per)
    f = cp.gamma_parameters if dist == "gamma" else cp.pearson_parameters
    p = ctx.call(f, scaled, 1990, 1990, y1, per)
    ctx.check("parameters can be fitted", p.ok())
    if not p.ok():
        return
    fp = dict(zip(G if dist == "gamma" else P, p.val))
    if spei:
        g = lambda *fit: ctx.call(ind.spei, ctx.arr(xs), ctx.arr(es), scale, D, per, 1990, 1990, y1, *fit)
    else:
        g = lambda *fit: ctx.call(ind.spi, ctx.arr(xs), scale, D, 1990, 1990, y1, per, *fit)
    a, b = g(), g(fp)
    ctx.check("both return", a.ok() and b.ok())
    if a.ok() and b.ok():
        ctx.same_array("same index from the supplied parameters", b.val, ctx.arr(ctx.items(a.val)))


def h_given(ctx, dist, n, spei, gaps=(), two_d=False):
    """supplied parameters alone decide: the years do not matter; gaps: values that may be zero or missing"""
    ind = ctx.mod("climate_indices.indices")
    cp = ctx.mod("climate_indices.compute")
    xs = ctx.reals("x", n, 1.0, 400.0)
    if gaps:
        xs = [float(10 + (i * 37) % 83) for i in range(n)]
        xs[7] = ctx.real("x", 1.0, 400.0)
        for k in gaps:
            xs[k] = ctx.real("g%d" % k, 0.0, 400.0, nan=True)
            S.present(ctx, xs[k]) and bool(xs[k] == 0)
        xs = ctx.arr(xs)
    if two_d:
        xs = xs.reshape(n // 12, 12)
    es = [float(2 + (i * 7) % 31) for i in range(n)]
    D, per = ind.Distribution[dist], cp.Periodicity.monthly
    if dist == "gamma":
        fp = dict(alpha=ctx.arr([2.0 + i / 10 for i in range(12)]), beta=ctx.arr([30.0 - i for i in range(12)]))
    else:
        fp = dict(prob_zero=ctx.arr([0.05] * 12), loc=ctx.arr([90.0 + i for i in range(12)]), scale=ctx.arr([30.0 + i for i in range(12)]),
                  skew=ctx.arr([0.9 - i / 5 + 0.01 for i in range(12)]))
    es = ctx.arr(es).reshape(n // 12, 12) if two_d else ctx.arr(es)
    y, c, d = ctx.int("y", 1800, 2100), ctx.int("c", 1800, 2100), ctx.int("d", 1800, 2100)
    if spei:
        a = ctx.call(ind.spei, xs, es, 1, D, per, y, c, d, fp)
        b = ctx.call(ind.spei, xs, es, 1, D, per, 2000, 2000, 2001, fp)
    else:
        a = ctx.call(ind.spi, xs, 1, D, y, c, d, per, fp)
        b = ctx.call(ind.spi, xs, 1, D, 2000, 2000, 2001, per, fp)
    ctx.check("both return", a.ok() and b.ok())
    if a.ok() and b.ok():
        ctx.same_array("the years do not matter", a.val, ctx.arr(ctx.items(b.val)))


def h_old(ctx, dist, n):
    ind = ctx.mod("climate_indices.indices")
    cp = ctx.mod("climate_indices.compute")
    xs = ctx.reals("x", n, 1.0, 400.0)
    es = [float(2 + (i * 7) % 31) for i in range(n)]
    vals = dict(alpha=[40.0 + i for i in range(12)], beta=[25.0 - i for i in range(12)], prob_zero=[0.05] * 12,
                loc=[1090.0 + i for i in range(12)], scale=[30.0 + i for i in range(12)], skew=[0.9 - i / 5 + 0.01 for i in range(12)])
    names = G if dist == "gamma" else P
    new = {k: ctx.arr(vals[k]) for k in names}
    mixed = {}
    for k in names:
        mixed[OLD[k] if bool(ctx.bool("old " + k)) else k] = ctx.arr(vals[k])
    a = ctx.call(ind.spei, xs, ctx.arr(es), 1, ind.Distribution[dist], cp.Periodicity.monthly, 1990, 1990, 1991, new)
    b = ctx.call(ind.spei, xs, ctx.arr(es), 1, ind.Distribution[dist], cp.Periodicity.monthly, 1990, 1990, 1991, mixed)
    ctx.check("both return", a.ok() and b.ok())
    if a.ok() and b.ok():
        ctx.same_array("deprecated keys give the same index", b.val, ctx.arr(ctx.items(a.val)))


def h_some(ctx, mask):
    cp = ctx.mod("climate_indices.compute")
    xs = ctx.reals("x", 24, 1.0, 400.0)
    a = [ctx.arr([0.5] * 12) if m else None for m in mask]
    o = ctx.call(cp.transform_fitted_pearson, xs, 1990, 1990, 1991, cp.Periodicity.monthly, *a)
    ctx.check("some but not all Pearson parameters: ValueError", o.raised("ValueError"))


def CASES(tier):
    out = []
    for d in ("gamma", "pearson"):
        for s in (False, True):
            nm = "%s %s" % ("SPEI" if s else "SPI", d)
            for scale, where, n in [(1, 16, 60), (3, 16, 60), (1, 62, 64)] + ([(6, 30, 64), (12, 30, 72), (2, 11, 60)] if tier != "quick" else []):
                out.append(dict(name="reuse %s scale=%d n=%d" % (nm, scale, n), fn="h_reuse",
                                params=dict(dist=d, scale=scale, where=where, n=n, spei=s)))
            out.append(dict(name="given %s" % nm, fn="h_given", params=dict(dist=d, n=14, spei=s)))
            out.append(dict(name="given %s zeros and gaps" % nm, fn="h_given", params=dict(dist=d, n=26, spei=s, gaps=[0, 5, 24])))
            out.append(dict(name="given %s zeros and gaps 2d" % nm, fn="h_given", params=dict(dist=d, n=24, spei=s, gaps=[0, 11, 12], two_d=True)))
        out.append(dict(name="old keys %s" % d, fn="h_old", params=dict(dist=d, n=13)))
    out.append(dict(name="reuse daily", fn="h_reuse", params=dict(dist="gamma", scale=1, where=366 + 59, n=366 * 4, daily=True)))
    for m in range(1, 15):
        out.append(dict(name="some parameters %d" % m, fn="h_some", params=dict(mask=[bool(m >> k & 1) for k in range(4)])))
    return out
