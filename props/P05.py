"""SPI and SPEI results: same length, inside the valid range, missing exactly where the window is incomplete."""
import _spec as S

BOUNDS = ("monthly series of 1, 11, 12, 14, 25 and 30 values (flat) and 2x12 (two-dimensional), daily series of 366 and 368 values; "
          "every value of the monthly series any real in -50..800 or missing (PET 0..400), daily: 6 such values; scales 1, 2, 3, 6; "
          "fitting parameters fixed (gamma, and Pearson with positive, negative and no skew).")
OUTSIDE = "longer series and scales, infinities, masked arrays; parameters fitted from the data are P06 and P07."
OPTS = dict(check_ms=15000)


def params(ctx, dist, n):
    if dist == "gamma":
        return {"alpha": ctx.arr([1.5 + 0.1 * (i % 12) for i in range(n)]), "beta": ctx.arr([20.0 + (i % 7) for i in range(n)])}
    sk = [0.8, -0.6, 0.0, 1.7]
    return {"prob_zero": ctx.arr([0.0 if i % 3 else 0.1 for i in range(n)]), "loc": ctx.arr([40.0 + i % 5 for i in range(n)]),
            "scale": ctx.arr([25.0 + i % 4 for i in range(n)]), "skew": ctx.arr([sk[i % 4] for i in range(n)])}


def verdict(ctx, o, xs, scale, zero_missing):
    n = len(xs)
    ctx.check("returns", o.ok())
    if not o.ok():
        return
    ctx.check("one value for each value of the input", tuple(o.val.shape) == (n,))
    if tuple(o.val.shape) != (n,):
        return
    for i, v in enumerate(ctx.items(o.val)):
        ctx.check("inside the valid range", ctx.Or(ctx.isnan(v), ctx.And(v >= -3.09, v <= 3.09)), at=str(i))
        if i < scale - 1:
            ctx.check("missing before the first complete window", ctx.isnan(v), at=str(i))
            continue
        win = xs[i - scale + 1:i + 1]
        gone = ctx.Or([ctx.isnan(x) for x in win])
        if zero_missing:
            # recorded finding: a zero accumulation is missing
            zero = ctx.And([x <= 0 for x in win])
            ctx.check("missing for an incomplete window", ctx.Implies(gone, ctx.isnan(v)), at=str(i))
            ctx.check("there for a complete window", ctx.Implies(ctx.And(ctx.Not(gone), ctx.Not(zero)), ctx.Not(ctx.isnan(v))), at=str(i))
        else:
            ctx.check("missing for an incomplete window", ctx.Implies(gone, ctx.isnan(v)), at=str(i))
            ctx.check("there for a complete window", ctx.Implies(ctx.Not(gone), ctx.Not(ctx.isnan(v))), at=str(i))


def series(ctx, n, tag, lo, hi, where=None):
    out = []
    for i in range(n):
        if where is None or i in where:
            out.append(ctx.real("%s%d" % (tag, i), lo, hi, nan=True))
        else:
            out.append(float(10 + i % 17))
    return out


def h_spi(ctx, n, scale, dist, daily=False, flat=True, where=None):
    ind = ctx.mod("climate_indices.indices")
    cp = ctx.mod("climate_indices.compute")
    xs = series(ctx, n, "p", -50.0, 800.0, where)
    steps = 366 if daily else 12
    a = ctx.arr(xs)
    if not flat:
        a = a.reshape(n // steps, steps)
    o = ctx.call(ind.spi, a, scale, ind.Distribution[dist], 1990, 1990, 1990 + (n - 1) // steps,
                 cp.Periodicity.daily if daily else cp.Periodicity.monthly, params(ctx, dist, steps))
    if o.ok() and not flat and bool(ctx.And([ctx.isnan(x) for x in xs])):
        ctx.check("all missing", ctx.And([ctx.isnan(v) for v in ctx.items(o.val)]))
        return
    verdict(ctx, o, xs, scale, dist == "gamma" and ctx.is_known("I-gamma-zero-missing"))


def h_spei(ctx, n, scale, dist, daily=False, flat=True, where=None):
    ind = ctx.mod("climate_indices.indices")
    cp = ctx.mod("climate_indices.compute")
    ps = series(ctx, n, "p", -50.0, 800.0, where)
    es = series(ctx, n, "e", 0.0, 400.0, where and [w + 1 for w in where if w + 1 < n])
    steps = 366 if daily else 12
    a, b = ctx.arr(ps), ctx.arr(es)
    if not flat:
        a, b = a.reshape(n // steps, steps), b.reshape(n // steps, steps)
    allp = ctx.And([ctx.isnan(x) for x in ps])
    o = ctx.call(ind.spei, a, b, scale, ind.Distribution[dist], cp.Periodicity.daily if daily else cp.Periodicity.monthly,
                 1990, 1990, 1990 + (n - 1) // steps, params(ctx, dist, steps))
    if bool(allp):
        ctx.check("all missing", o.ok() and ctx.And([ctx.isnan(v) for v in ctx.items(o.val)]))
        return
    # positive by the offset: no zero accumulation
    verdict(ctx, o, [p + e for p, e in zip(ps, es)], scale, False)


def h_reject(ctx):
    ind = ctx.mod("climate_indices.indices")
    cp = ctx.mod("climate_indices.compute")
    a = ctx.reals("p", 24, 1.0, 50.0)
    for d in ("gamma", "pearson"):
        p = params(ctx, d, 12)
        o = ctx.call(ind.spi, a.reshape(2, 3, 4), 1, ind.Distribution[d], 1990, 1990, 1991, cp.Periodicity.monthly, p)
        ctx.check("SPI of a 3-D array is rejected", o.raised("ValueError"))
        o = ctx.call(ind.spi, a, 1, ind.Distribution[d], 1990, 1990, 1991, "monthly?", p)
        ctx.check("SPI with an unknown periodicity is rejected", o.raised("ValueError"))
        o = ctx.call(ind.spei, a, a[:12], 1, ind.Distribution[d], cp.Periodicity.monthly, 1990, 1990, 1991, p)
        ctx.check("SPEI of different lengths is rejected", o.raised("ValueError"))
    o = ctx.call(ind.spi, a, 1, "gamma?", 1990, 1990, 1991, cp.Periodicity.monthly)
    ctx.check("SPI with an unknown distribution is rejected", o.raised("ValueError"))
    o = ctx.call(ind.spei, a, a, 1, "gamma?", cp.Periodicity.monthly, 1990, 1990, 1991)
    ctx.check("SPEI with an unknown distribution is rejected", o.raised("ValueError"))


def h_missing(ctx, n, two):
    ind = ctx.mod("climate_indices.indices")
    cp = ctx.mod("climate_indices.compute")
    a = ctx.arr([float("nan")] * n)
    if two:
        a = a.reshape(n // 12, 12)
    for d in ("gamma", "pearson"):
        for s in (1, 3):
            o = ctx.call(ind.spi, a, s, ind.Distribution[d], 1990, 1990, 1991, cp.Periodicity.monthly)
            ctx.check("SPI of nothing is nothing", o.ok() and o.val.size == n and ctx.And([ctx.isnan(v) for v in ctx.items(o.val)]))
            o = ctx.call(ind.spei, a, a, s, ind.Distribution[d], cp.Periodicity.monthly, 1990, 1990, 1991)
            ctx.check("SPEI of nothing is nothing", o.ok() and o.val.size == n and ctx.And([ctx.isnan(v) for v in ctx.items(o.val)]))


def CASES(tier):
    out = [dict(name="reject", fn="h_reject"), dict(name="nothing 24", fn="h_missing", params=dict(n=24, two=False)),
           dict(name="nothing 2x12", fn="h_missing", params=dict(n=24, two=True))]
    ns = [(1, 1), (11, 2), (12, 1), (14, 3), (25, 2)] + ([(30, 6), (25, 1), (14, 6), (36, 3), (40, 12)] if tier != "quick" else [(30, 6)])
    for d in ("gamma", "pearson"):
        for n, s in ns:
            for f in ("spi", "spei"):
                out.append(dict(name="%s %s n=%d scale=%d" % (f, d, n, s), fn="h_" + f, params=dict(n=n, scale=s, dist=d)))
        for f in ("spi", "spei"):
            out.append(dict(name="%s %s 2x12" % (f, d), fn="h_" + f, params=dict(n=24, scale=2, dist=d, flat=False)))
            out.append(dict(name="%s %s daily" % (f, d), fn="h_" + f,
                            params=dict(n=368, scale=2, dist=d, daily=True, where=[0, 1, 59, 365, 366, 367])))
    return out
