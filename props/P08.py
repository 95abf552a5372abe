"""The calibration period: which years determine the fitting parameters."""
import math
import _spec as S
import P07

BOUNDS = ("data start year any integer 1850..2100, calibration first and last year any integers up to 3 (thorough 5) years before the data and "
          "after it, 6 years of monthly data (thorough 8, and 5 years of daily data), also a partial seventh year; one symbolic value (gamma 0..500, Pearson 200..500, or missing) in a year of one calendar "
          "month, fitted directly and through SPI/SPEI with gamma and Pearson.")
OUTSIDE = "calibration periods that end before they start; longer records."
OPTS = dict(check_ms=15000)


def table(ctx, years, steps, part):
    return [float(10 + (i * 37) % 83 + (i // steps) * 4) for i in range(years * steps + part)]


def window(y0, years, cs, ce):
    """rows used: the calibration period if the data cover it, else everything"""
    y1 = y0 + years - 1
    if cs < y0 or ce > y1:
        return 0, years - 1
    return cs - y0, ce - y0


def years_of(ctx, years, out):
    y0 = ctx.int("start", 1850, 2100)
    a = ctx.int("first", -out, years - 1 + out)
    n = ctx.int("length", 4, years + out)
    a, n = ctx.conc(a), ctx.conc(n)
    return y0, y0 + a, y0 + a + n - 1, a, a + n - 1


def h_gamma(ctx, years, where, out, daily=False, part=0):
    cp = ctx.mod("climate_indices.compute")
    steps = 366 if daily else 12
    xs = table(ctx, years, steps, part)
    col = 3
    x = ctx.real("x", 0.0, 500.0, nan=True)
    xs[where * steps + col] = x
    S.present(ctx, x) and bool(x == 0)
    y0, cs, ce, a, b = years_of(ctx, years, out)
    rows = S.grid(xs, steps)
    lo, hi = window(0, len(rows), a, b)
    o = ctx.call(cp.gamma_parameters, ctx.arr(xs), y0, cs, ce, cp.Periodicity.daily if daily else cp.Periodicity.monthly)
    ctx.check("gamma_parameters returns", o.ok())
    if not o.ok():
        return
    al, be = o.val
    for j in (col, 0, steps - 1):
        f = S.gamma_fit(ctx, [r[j] for r in rows][lo:hi + 1])
        ctx.check("shape from the calibration years", ctx.close(ctx.items(al)[j], f[0]), at=str(j))
        ctx.check("scale from the calibration years", ctx.close(ctx.items(be)[j], f[1]), at=str(j))


def h_pearson(ctx, years, where, out, part=0):
    cp = ctx.mod("climate_indices.compute")
    xs = table(ctx, years, 12, part)
    col = 3
    x = ctx.real("x", 200.0, 500.0, nan=True)
    xs[where * 12 + col] = x
    S.present(ctx, x)
    y0, cs, ce, a, b = years_of(ctx, years, out)
    rows = S.grid(xs, 12)
    lo, hi = window(0, len(rows), a, b)
    want = [P07.fit(ctx, [r[j] for r in rows[lo:hi + 1]]) for j in (col, 0)]
    o = ctx.call(cp.pearson_parameters, ctx.arr(xs), y0, cs, ce, cp.Periodicity.monthly)
    ctx.check("pearson_parameters returns", o.ok())
    if not o.ok():
        return
    for j, w in zip((col, 0), want):
        for name, got, exp in zip(("share of zeros", "location", "scale", "skew"), o.val, w):
            ctx.check(name + " from the calibration years", ctx.close(ctx.items(got)[j], exp), at=str(j))


def h_same(ctx, years, dist, out, spei=False):
    """an index computed with a calibration period is the one with that period's parameters"""
    ind = ctx.mod("climate_indices.indices")
    cp = ctx.mod("climate_indices.compute")
    xs = table(ctx, years, 12, 0)
    xs[2 * 12 + 3] = ctx.real("x", 200.0, 500.0)
    y0, cs, ce, a, b = years_of(ctx, years, out)
    lo, hi = window(0, years, a, b)
    es = [float(2 + (i * 7) % 31) for i in range(len(xs))]
    D = ind.Distribution[dist]
    M = cp.Periodicity.monthly
    vals = [x - e + 1000.0 for x, e in zip(xs, es)] if spei else xs
    sub = ctx.arr(vals[lo * 12:(hi + 1) * 12])
    if dist == "gamma":
        p = ctx.call(cp.gamma_parameters, sub, 1990, 1990, 1990 + hi - lo, M)
        names = ("alpha", "beta")
    else:
        p = ctx.call(cp.pearson_parameters, sub, 1990, 1990, 1990 + hi - lo, M)
        names = ("prob_zero", "loc", "scale", "skew")
    if not p.ok():
        return
    fp = dict(zip(names, p.val))
    if spei:
        f = lambda fit, s, c, d: ctx.call(ind.spei, ctx.arr(xs), ctx.arr(es), 1, D, M, s, c, d, *fit)
    else:
        f = lambda fit, s, c, d: ctx.call(ind.spi, ctx.arr(xs), 1, D, s, c, d, M, *fit)
    o = f([], y0, cs, ce)
    w = f([fp], 1990, 1990, 1990)
    ctx.check("both return", o.ok() and w.ok())
    if o.ok() and w.ok():
        ctx.same_array("index under the parameters of the calibration years", o.val, ctx.arr(ctx.items(w.val)))


def CASES(tier):
    big = tier != "quick"
    out = 3 if not big else 5
    Y = 6 if not big else 8
    cs = []
    for where in (0, 2, Y - 1):
        for part in (0, 5):
            cs.append(dict(name="gamma x in year %d, %d more months" % (where, part), fn="h_gamma", params=dict(years=Y, where=where, out=out, part=part)))
            cs.append(dict(name="pearson x in year %d, %d more months" % (where, part), fn="h_pearson", params=dict(years=Y, where=where, out=out, part=part)))
    for d in ("gamma", "pearson"):
        for s in (False, True):
            cs.append(dict(name="%s %s" % ("SPEI" if s else "SPI", d), fn="h_same", params=dict(years=Y, dist=d, out=out, spei=s)))
    if big:
        cs.append(dict(name="gamma daily", fn="h_gamma", params=dict(years=5, where=2, out=2, daily=True)))
    return cs
