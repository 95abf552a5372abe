"""Gamma SPI and SPEI: which number belongs to which accumulation."""
import _spec as S

BOUNDS = ("monthly series of 5 years plus a partial sixth, scales 1..3, 2 to 4 symbolic values (0..500, each zero, positive or missing; "
          "SPEI: precipitation and PET) in one or two calendar months, the other months fixed; calibration over the full record and over "
          "a part of it; daily: 4 years of 366 values, one symbolic calendar day. Fits with a log-mean difference above 1e-4.")
OUTSIDE = ("longer records, more symbolic values at a time, nearly constant samples, infinities, masked arrays. Gamma and normal "
           "distribution functions are scipy's and taken as given.")
OPTS = dict(check_ms=15000)


def base(months, seed=7):
    return [float(10 + (i * seed * seed + i // 12 * 5) % 83) for i in range(months)]


def put(ctx, xs, where, tag, lo, hi, nan=True):
    xs = list(xs)
    for i in where:
        xs[i] = ctx.real("%s%d" % (tag, i), lo, hi, nan=nan)
    return xs


def expected(ctx, sums, steps, cal, shown=None):
    """index values of the accumulations; cal: first and last row of the calibration"""
    rows = S.grid(sums, steps)
    out = [[S.NAN] * steps for _ in rows]
    for j in range(steps):
        col = [r[j] for r in rows]
        if shown is not None and j not in shown:
            for i in range(len(rows)):
                out[i][j] = None
            continue
        if not any(S.present(ctx, x) for x in col):
            continue
        alpha, beta = S.gamma_fit(ctx, col[cal[0]:cal[1] + 1])
        p0 = S.p_zero(ctx, col, per_year=ctx.is_known("H-gamma-zero-share"))
        for i, x in enumerate(col):
            out[i][j] = S.gamma_index(ctx, x, p0, alpha, beta, legacy_zero=ctx.is_known("I-gamma-zero-missing"))
    return [v for r in out for v in r][:len(sums)]


def usable(ctx, sums, steps, cal, cols):
    """keep away from (nearly) constant samples, where rounding decides"""
    rows = S.grid(sums, steps)
    for j in cols:
        pos = [x for x in [r[j] for r in rows][cal[0]:cal[1] + 1] if S.present(ctx, x) and not bool(x == 0)]
        if pos:
            a = ctx.log(ctx.sum(pos) / len(pos)) - ctx.sum([ctx.log(x) for x in pos]) / len(pos)
            ctx.assume(a > 1e-4)


def compare(ctx, label, got, want):
    ctx.check(label + " [length]", tuple(got.shape) == (len(want),))
    if tuple(got.shape) != (len(want),):
        return
    for i, (g, w) in enumerate(zip(ctx.items(got), want)):
        if w is not None:
            ctx.check(label, ctx.close(g, w), at=str(i))


def h_spi(ctx, months, scale, where, cal, cols):
    ind = ctx.mod("climate_indices.indices")
    cp = ctx.mod("climate_indices.compute")
    xs = put(ctx, base(months), where, "p", 0.0, 500.0)
    for i in where:
        bool(ctx.isnan(xs[i])) or bool(xs[i] == 0)
    sm = S.sums(ctx, xs, scale)
    usable(ctx, sm, 12, cal, cols)
    o = ctx.call(ind.spi, ctx.arr(xs), scale, ind.Distribution.gamma, 1990, 1990 + cal[0], 1990 + cal[1],
                 cp.Periodicity.monthly)
    ctx.check("spi returns", o.ok())
    if o.ok():
        compare(ctx, "gamma SPI of every month", o.val, expected(ctx, sm, 12, cal, cols))


def h_spei(ctx, months, scale, where, wpet, cal, cols):
    ind = ctx.mod("climate_indices.indices")
    cp = ctx.mod("climate_indices.compute")
    ps = put(ctx, base(months), where, "p", -20.0, 500.0)
    es = put(ctx, base(months, 5), wpet, "e", 0.0, 300.0)
    for i in where:
        bool(ctx.isnan(ps[i])) or bool(ps[i] < 0)
    for i in wpet:
        bool(ctx.isnan(es[i]))
    ds = [(p if bool(ctx.isnan(p)) else ctx.ite(p < 0, 0.0, p)) - e + 1000.0 for p, e in zip(ps, es)]
    sm = S.sums(ctx, ds, scale)
    usable(ctx, sm, 12, cal, cols)
    o = ctx.call(ind.spei, ctx.arr(ps), ctx.arr(es), scale, ind.Distribution.gamma, cp.Periodicity.monthly, 1990,
                 1990 + cal[0], 1990 + cal[1])
    ctx.check("spei returns", o.ok())
    if o.ok():
        compare(ctx, "gamma SPEI of every month", o.val, expected(ctx, sm, 12, cal, cols))


def h_params(ctx, years, where, cal):
    cp = ctx.mod("climate_indices.compute")
    xs = put(ctx, base(years * 12), where, "p", 0.0, 500.0)
    for i in where:
        bool(ctx.isnan(xs[i])) or bool(xs[i] == 0)
    usable(ctx, xs, 12, cal, range(12))
    o = ctx.call(cp.gamma_parameters, ctx.arr(xs), 1990, 1990 + cal[0], 1990 + cal[1], cp.Periodicity.monthly)
    ctx.check("gamma_parameters returns", o.ok())
    if not o.ok():
        return
    al, be = o.val
    rows = S.grid(xs, 12)
    fits = [S.gamma_fit(ctx, [r[j] for r in rows][cal[0]:cal[1] + 1]) for j in range(12)]
    ctx.same_array("shape of every calendar month", al, ctx.arr([f[0] for f in fits]))
    ctx.same_array("scale of every calendar month", be, ctx.arr([f[1] for f in fits]))


def h_direct(ctx, months, where):
    """the transformation itself with given parameters, before the index is limited to the valid range"""
    cp = ctx.mod("climate_indices.compute")
    xs = put(ctx, base(months), where, "p", 0.001, 800.0)
    for i in where:
        bool(ctx.isnan(xs[i]))
    zero = [i for i in range(months) if i % 12 == 7 and i < 24]
    for i in zero:
        xs[i] = 0.0
    al, be = [1.5 + j / 10 for j in range(12)], [30.0 - j for j in range(12)]
    rows = -(-months // 12)
    want = []
    for i, x in enumerate(xs):
        j = i % 12
        want.append(None if i in zero else
                    S.gamma_index(ctx, x, len([k for k in zero if k % 12 == j]) / rows, al[j], be[j], clip=S.unclipped))
    o = ctx.call(cp.transform_fitted_gamma, ctx.arr(xs), 1990, 1990, 1991, cp.Periodicity.monthly, ctx.arr(al), ctx.arr(be))
    ctx.check("transformation returns", o.ok())
    if o.ok():
        ctx.check("whole years", tuple(o.val.shape) == (rows, 12))
        if tuple(o.val.shape) == (rows, 12):
            for i, g in enumerate(ctx.items(o.val)):
                if i >= months:
                    ctx.check("missing after the data", ctx.isnan(g), at=str(i))
                elif want[i] is not None:
                    ctx.check("normal score of every month", ctx.close(g, want[i]), at=str(i))


def h_daily(ctx, day, cal):
    ind = ctx.mod("climate_indices.indices")
    cp = ctx.mod("climate_indices.compute")
    xs = put(ctx, base(366 * 4), [day, 366 + day, 2 * 366 + day], "p", 0.0, 200.0)
    sm = S.sums(ctx, xs, 1)
    cols = [day, 0, 365, 58, 59]
    usable(ctx, sm, 366, cal, cols)
    o = ctx.call(ind.spi, ctx.arr(xs), 1, ind.Distribution.gamma, 1990, 1990 + cal[0], 1990 + cal[1],
                 cp.Periodicity.daily)
    ctx.check("spi returns", o.ok())
    if o.ok():
        compare(ctx, "gamma SPI of every day", o.val, expected(ctx, sm, 366, cal, cols))


def CASES(tier):
    out = []
    big = tier != "quick"
    Y = 12
    for scale, where, cols in [(1, [4, 16, 28], [3, 4, 5]), (1, [0, 11, 59], [0, 11]), (2, [14, 26], [1, 2, 3, 4]),
                               (3, [11, 35], [10, 11, 0, 1, 2]), (1, [62], [2, 7])]:
        for cal in ([0, 5], [1, 3]) if not big else ([0, 5], [1, 3], [0, 2], [2, 5]):
            out.append(dict(name="spi scale=%d at %s cal=%s" % (scale, where, cal), fn="h_spi",
                            params=dict(months=65, scale=scale, where=where, cal=cal, cols=cols)))
    for scale, where, wpet, cols in [(1, [4, 16], [28], [3, 4]), (1, [2], [14, 26], [2, 3]), (2, [14], [27], [2, 3, 4]),
                                     (3, [59], [60], [11, 0, 1, 2])]:
        for cal in ([0, 5], [1, 3]):
            out.append(dict(name="spei scale=%d at %s/%s cal=%s" % (scale, where, wpet, cal), fn="h_spei",
                            params=dict(months=65, scale=scale, where=where, wpet=wpet, cal=cal, cols=cols)))
    for where, cal in [([4, 16, 28, 40], [0, 4]), ([4, 16, 28], [1, 4]), ([0, 12, 23, 35], [0, 4]), ([6, 18], [1, 2])]:
        out.append(dict(name="gamma_parameters at %s cal=%s" % (where, cal), fn="h_params",
                        params=dict(years=5, where=where, cal=cal)))
    for where, n in [([2, 14, 7 + 24], 36), ([0, 30, 11], 31)]:
        out.append(dict(name="direct %d" % n, fn="h_direct", params=dict(months=n, where=where)))
    for day in (59,) if not big else (0, 59, 365):
        for cal in ([0, 3], [1, 3]):
            out.append(dict(name="daily %d cal=%s" % (day, cal), fn="h_daily", params=dict(day=day, cal=cal)))
    return out
