"""Palmer's Z index: K times the departure from the climatically appropriate precipitation, coefficients from the calibration years."""
import _palmer as W
from P16 import MILD, DRY, REST

BOUNDS = ("3 to 5 years of months, the calibration period any of the runs of whole years inside the data (symbolic first year and length), one or two months outside the calibration symbolic "
          "(precipitation 0..20, potential evapotranspiration 0..10 inches; also below zero), coefficients fitted or given; a month inside the calibration symbolic for the coefficients; "
          "capacities 0.5, 1, 4 and 8 inches; partial final years; incompatible sizes; no precipitation at all.")
OUTSIDE = "calibration months without any water (K undefined); a symbolic month inside the calibration for K itself; calibration periods beyond the data."
OPTS = dict(check_ms=12000)
SECONDS = dict(quick=120, thorough=700)


def record(n, kind="mild"):
    """a fixed record with every calendar month's departure away from zero"""
    ps = [2.0 + ((i * 37) % 41) / 10.0 for i in range(n)]
    es = [0.4 + ((i * 23) % 31) / 10.0 + (2.0 if 3 <= i % 12 <= 8 else 0.0) for i in range(n)]
    if kind == "dry":
        ps = [p / 3.0 for p in ps]
    return ps, es


GIVEN = dict(alpha=[0.9 - i / 40.0 for i in range(12)], beta=[0.10 + i / 50.0 for i in range(12)], gamma=[0.05 + i / 100.0 for i in range(12)],
             delta=[0.30 - i / 50.0 for i in range(12)])


def given(ctx, form):
    if form == "list":
        return {k: list(v) for k, v in GIVEN.items()}
    if form == "tuple":
        return {k: tuple(v) for k, v in GIVEN.items()}
    return {k: ctx.arr(v) for k, v in GIVEN.items()}


def h_z(ctx, years, awc, at, kind="mild", fit=None, part=0, two_d=False, free_cal=False, plim=(0.0, 20.0)):
    pal = ctx.mod("climate_indices.palmer")
    n = years * 12 + part
    ps, es = record(n, kind)
    if free_cal:
        first = ctx.conc(ctx.int("first", 0, years - 2))
        last = ctx.conc(ctx.int("last", 0, years - 2))
        ctx.assume(first <= last)
        cal = (first, last)
    else:
        cal = (0, years - 2)
    for i, what in at:
        if "p" in what:
            ps[i] = ctx.real("p%d" % i, plim[0], plim[1])
        if "e" in what:
            es[i] = ctx.real("e%d" % i, 0.0, 10.0)
    clipped = [ctx.max(p, 0.0) if not isinstance(p, float) and plim[0] < 0 and not bool(p >= 0) else p for p in ps]
    want, co, k, rows = W.zindex(ctx, clipped, es, awc, cal, GIVEN if fit else None)
    a, b = ctx.arr(ps), ctx.arr(es)
    if two_d:
        a, b = a.reshape(years, 12), b.reshape(years, 12)
    args = [a, b, awc, 1990, 1990 + cal[0], 1990 + cal[1]]
    o = ctx.call(pal.pdsi, *(args + ([given(ctx, fit)] if fit else [])))
    ctx.check("pdsi returns", o.ok())
    if not o.ok():
        return
    for name, v in zip(("PDSI", "PHDI", "PMDI", "Z"), o.val):
        ctx.check(name + ": as many values as months", len(ctx.items(v)) == n)
    z = ctx.items(o.val[3])
    for i in range(n):
        ctx.check("Z index by the formula", ctx.close(z[i], want[i]), at="month %d" % i)
    for key in ("alpha", "beta", "gamma", "delta"):
        g = ctx.items(o.val[4][key])
        for m in range(12):
            ctx.check("coefficients of the calibration years", ctx.close(g[m], co[key][m]), at="%s %d" % (key, m))


def h_window(ctx, years, at, what="p", awc=4.0):
    """coefficients only: a symbolic month in some year, calibration period symbolic; January at rest keeps the spells out of it"""
    pal = ctx.mod("climate_indices.palmer")
    n = years * 12
    ps, es = record(n)
    for y in range(years):
        ps[y * 12], es[y * 12] = REST
        ps[y * 12 + 11], es[y * 12 + 11] = 60.0, 0.0
    if "p" in what:
        ps[at] = ctx.real("p", 0.0, 30.0)
    if "e" in what:
        es[at] = ctx.real("e", 0.0, 20.0)
    first = ctx.conc(ctx.int("first", 0, years - 1))
    last = ctx.conc(ctx.int("last", 0, years - 1))
    ctx.assume(first <= last)
    rows = W.balance(ctx, ps, es, awc)
    want = W.coefficients(ctx, rows, (first, last))
    y0 = 1895 if at % 2 else 2016
    o = ctx.call(pal.pdsi, ctx.arr(ps), ctx.arr(es), awc, y0, y0 + first, y0 + last)
    ctx.check("pdsi returns", o.ok())
    if o.ok():
        for k in ("alpha", "beta", "gamma", "delta"):
            g = ctx.items(o.val[4][k])
            for m in range(12):
                ctx.check("coefficients of the calibration years", ctx.close(g[m], want[k][m]), at="%s %d" % (k, m))


def h_again(ctx, years, awc, at, kind="mild"):
    """a run with the fitted coefficients gives what the fitting run gave"""
    pal = ctx.mod("climate_indices.palmer")
    n = years * 12
    ps, es = record(n, kind)
    for i, what in at:
        if "p" in what:
            ps[i] = ctx.real("p%d" % i, 0.0, 20.0)
        if "e" in what:
            es[i] = ctx.real("e%d" % i, 0.0, 10.0)
    args = [ctx.arr(ps), ctx.arr(es), awc, 1990, 1990, 1990 + years - 2]
    o = ctx.call(pal.pdsi, *args)
    ctx.check("pdsi returns", o.ok())
    if not o.ok():
        return
    first = [ctx.copy(v) for v in o.val[:4]]
    p = ctx.call(pal.pdsi, *(args + [dict(o.val[4])]))
    ctx.check("pdsi returns with its own coefficients", p.ok())
    if p.ok():
        for name, u, v in zip(("PDSI", "PHDI", "PMDI", "Z"), first, p.val):
            ctx.same_array(name + " the same", v, u)
        for k in ("alpha", "beta", "gamma", "delta"):
            ctx.same_array(k + " the same", p.val[4][k], o.val[4][k])


def h_incomplete(ctx, lacking):
    """coefficients that are not there for twelve months: fitted instead"""
    pal = ctx.mod("climate_indices.palmer")
    ps, es = record(36)
    ps[30] = ctx.real("p", 1.9, 2.1)
    want, co, k, rows = W.zindex(ctx, ps, es, 4.0, (0, 1))
    fp = given(ctx, "array")
    if lacking == "gamma":
        del fp["gamma"]
    elif lacking == "short":
        fp["delta"] = ctx.arr(GIVEN["delta"][:11])
    elif lacking == "number":
        fp["alpha"] = 0.5
    elif lacking == "none":
        fp["beta"] = None
    o = ctx.call(pal.pdsi, ctx.arr(ps), ctx.arr(es), 4.0, 1990, 1990, 1991, fp)
    ctx.check("pdsi returns", o.ok())
    if o.ok():
        z = ctx.items(o.val[3])
        for i in range(36):
            ctx.check("Z index of the fitted coefficients", ctx.close(z[i], want[i]), at="month %d" % i)


def h_sizes(ctx, d):
    pal = ctx.mod("climate_indices.palmer")
    ps, es = record(36 + max(d, 0)), record(36 + max(-d, 0))
    ps[0][5] = ctx.real("p", 0.0, 9.0)
    o = ctx.call(pal.pdsi, ctx.arr(ps[0]), ctx.arr(es[1]), 4.0, 1990, 1990, 1991)
    ctx.check("different sizes raise ValueError", o.raised("ValueError"))


def h_none(ctx):
    pal = ctx.mod("climate_indices.palmer")
    es = record(36)[1]
    es[3] = ctx.real("e", 0.0, 9.0)
    o = ctx.call(pal.pdsi, ctx.arr([float("nan")] * 36), ctx.arr(es), 4.0, 1990, 1990, 1991)
    ctx.check("pdsi returns", o.ok())
    if o.ok():
        for v in o.val[:4]:
            g = ctx.items(v)
            ctx.check("all missing", len(g) == 36 and ctx.And([ctx.isnan(x) for x in g]))


def CASES(tier):
    big = tier != "quick"
    out = []

    def add(name, h, **p):
        out.append(dict(name=name, fn=h, params=p))
    for awc in (0.5, 1.0, 4.0, 8.0):
        for kind in ("mild", "dry"):
            add("Z awc=%s %s last month" % (awc, kind), "h_z", years=3, awc=awc, at=((35, "p"),), kind=kind)
            add("Z awc=%s %s last month PET" % (awc, kind), "h_z", years=3, awc=awc, at=((35, "e"),), kind=kind)
            if big or awc == 4.0:
                add("Z awc=%s %s two months" % (awc, kind), "h_z", years=3, awc=awc, at=((34, "e"), (35, "p")), kind=kind)
    for fit in ("array", "list", "tuple"):
        add("Z given as %s" % fit, "h_z", years=3, awc=4.0, at=((35, "p"),), fit=fit)
    add("Z given, two-dimensional", "h_z", years=3, awc=4.0, at=((35, "pe"),), fit="array", two_d=True)
    add("Z two-dimensional", "h_z", years=3, awc=4.0, at=((35, "p"),), two_d=True)
    add("Z negative precipitation", "h_z", years=3, awc=4.0, at=((35, "p"),), plim=(-5.0, 1.0))
    for part in (1, 5, 11):
        add("Z partial year %d" % part, "h_z", years=2, awc=4.0, at=((24 + part - 1, "p"),), part=part)
    add("Z calibration anywhere", "h_z", years=4 if not big else 6, awc=4.0, at=((47 if not big else 71, "p"),), free_cal=True)
    for at in (10, 21, 33, 34) if not big else (3, 10, 15, 21, 26, 33, 34):
        for w in ("p", "e"):
            if big or (at + (w == "p")) % 2:
                add("calibration window, month %d %s" % (at, w), "h_window", years=3, at=at, what=w)
    for awc in (1.0, 4.0):
        add("again awc=%s" % awc, "h_again", years=3, awc=awc, at=((35, "p"),))
        add("again awc=%s PET" % awc, "h_again", years=3, awc=awc, at=((34, "e"),), kind="dry")
    for l in ("gamma", "short", "number", "none"):
        add("incomplete coefficients: " + l, "h_incomplete", lacking=l)
    for d in (1, -1, 12):
        add("sizes %d" % d, "h_sizes", d=d)
    add("no precipitation", "h_none")
    return out
