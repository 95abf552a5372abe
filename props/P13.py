"""PET at every latitude: one value per temperature, missing where the temperature is, never negative; other latitudes are refused."""
import _spec as S
from P12 import CLIMATES, thornthwaite

BOUNDS = ("any real latitude in -90..90 (also as an array of equal latitudes) with a year of fixed temperatures; latitudes -90, -66.56, 0, 33.3, 66.56, 89.99, 90 with 12, 24, 26 and 36 monthly "
          "temperatures of which up to three are symbolic (-60..60 Celsius or missing), one- and two-dimensional; latitudes -1000..1000 outside the range, missing and None; "
          "all temperatures missing; start year any integer 1850..2200.")
OUTSIDE = "calendar months without any temperature in the whole record (heat index undefined); masked arrays; infinite latitudes."
OPTS = dict(check_ms=12000)
SECONDS = dict(quick=100, thorough=600)


def one_each(ctx, o, xs, shape_ok=True):
    ctx.check("PET returns", o.ok())
    if not o.ok():
        return
    got = ctx.items(o.val)
    ctx.check("as many values as temperatures", len(got) == len(xs))
    for i, (g, x) in enumerate(zip(got, xs)):
        gone = ctx.isnan(x)
        ctx.check("missing exactly where the temperature is", ctx.And(ctx.Implies(gone, ctx.isnan(g)), ctx.Implies(ctx.isnan(g), gone)), at="month %d" % i)
        ctx.check("never negative", ctx.Or(ctx.isnan(g), g >= 0), at="month %d" % i)
        ctx.check("finite", ctx.Not(ctx.isinf(g)), at="month %d" % i)


def h_temps(ctx, lat, climate, at, n, two_d=False, lo=-60.0, hi=60.0):
    ind = ctx.mod("climate_indices.indices")
    xs = [CLIMATES[climate](i) for i in range(n)]
    for i in at:
        xs[i] = ctx.real("t%d" % i, lo, hi, nan=True)
        S.present(ctx, xs[i]) and bool(xs[i] < 0)
    v = ctx.arr(xs)
    if two_d:
        v = v.reshape(n // 12, 12)
    one_each(ctx, ctx.call(ind.pet, v, lat, ctx.int("start", 1850, 2200)), xs)


def h_lat(ctx, climate, y0, as_array=False):
    ind = ctx.mod("climate_indices.indices")
    xs = [CLIMATES[climate](i) for i in range(12)]
    lat = ctx.real("lat", -90.0, 90.0)
    one_each(ctx, ctx.call(ind.pet, ctx.arr(xs), ctx.arr([lat] * 12) if as_array else lat, y0), xs)


def h_refused(ctx, side, as_array=False):
    ind = ctx.mod("climate_indices.indices")
    xs = [CLIMATES["temperate"](i) for i in range(12)]
    if side == "north":
        lat = ctx.real("lat", 90.0, 1000.0)
        ctx.assume(lat > 90.0)
    elif side == "south":
        lat = ctx.real("lat", -1000.0, -90.0)
        ctx.assume(lat < -90.0)
    elif side == "missing":
        lat = float("nan")
    else:
        lat = None
    o = ctx.call(ind.pet, ctx.arr(xs), ctx.arr([lat] * 12) if as_array else lat, 1990)
    ctx.check("latitude refused with ValueError", o.raised("ValueError"))


def h_none(ctx, n, two_d):
    """no temperature at all"""
    ind = ctx.mod("climate_indices.indices")
    v = ctx.arr([float("nan")] * n)
    if two_d:
        v = v.reshape(n // 12, 12)
    lat = ctx.real("lat", -90.0, 90.0)
    o = ctx.call(ind.pet, v, lat, 1990)
    ctx.check("PET returns", o.ok())
    if o.ok():
        got = ctx.items(o.val)
        ctx.check("as many values", len(got) == n)
        ctx.check("all missing", ctx.And([ctx.isnan(g) for g in got]))


def CASES(tier):
    big = tier != "quick"
    out = []

    def add(name, h, **p):
        out.append(dict(name=name, fn=h, params=p))
    for lat in (-90.0, -66.56, 0.0, 33.3, 66.56, 89.99, 90.0):
        add("latitude %s" % lat, "h_temps", lat=lat, climate="temperate", at=(2, 13), n=24)
        if big:
            add("latitude %s, three" % lat, "h_temps", lat=lat, climate="frost", at=(0, 13, 25), n=36)
    add("frost", "h_temps", lat=52.0, climate="frost", at=(0, 25), n=26)
    add("frozen", "h_temps", lat=72.0, climate="frozen", at=(12, 17), n=24)
    add("frozen throughout", "h_temps", lat=72.0, climate="frozen", at=(12, 17, 4), n=24, hi=0.0)
    add("two-dimensional", "h_temps", lat=-12.0, climate="temperate", at=(0, 30), n=36, two_d=True)
    for y in (1999, 2000):
        for c in ("temperate", "frozen"):
            add("any latitude %s %d" % (c, y), "h_lat", climate=c, y0=y)
    add("array of latitudes", "h_lat", climate="frost", y0=2003, as_array=True)
    for s in ("north", "south", "missing", "none"):
        add("refused " + s, "h_refused", side=s)
    for s in ("north", "missing"):
        add("refused array " + s, "h_refused", side=s, as_array=True)
    add("no temperatures", "h_none", n=14, two_d=False)
    add("no temperatures, two-dimensional", "h_none", n=24, two_d=True)
    return out
