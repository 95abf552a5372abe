"""Thornthwaite PET against an independent statement of the formula."""
import math
import _spec as S

BOUNDS = ("26 (thorough 50) monthly temperatures, one- and two-dimensional, one to three symbolic ones (-30..45 Celsius or missing), the others fixed (a temperate "
          "climate, one with frost, a year without any month above freezing); start year any integer 1850..2200; latitude each of -90, -66.6, -38.2, 0, 12.3, 45, 67.1, "
          "78, 90 degrees, and any real latitude in -90..90 with fixed temperatures.")
OUTSIDE = "more symbolic temperatures at a time; records longer than the bound; the accuracy of the trigonometric functions."
OPTS = dict(check_ms=12000)
SECONDS = dict(quick=100, thorough=600)

DAYS = [31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31]


def month_days(leap):
    return [29 if (leap and m == 1) else d for m, d in enumerate(DAYS)]


def day_length(ctx, lat, doy, k):
    """hours of daylight of a day, FAO-56 equations 24, 25, 34; k: precomputed tangent of the latitude"""
    dec = 0.409 * math.sin(2.0 * math.pi / 365.0 * doy - 1.39)
    c = -k * math.tan(dec)
    return 24.0 / math.pi * ctx.acos(ctx.min(1.0, ctx.max(-1.0, c)))


def day_lengths(ctx, lat, leap):
    k = ctx.tan(lat * math.pi / 180.0) if not isinstance(lat, float) else math.tan(math.radians(lat))
    out, doy = [], 1
    for n in month_days(leap):
        out.append(ctx.sum([day_length(ctx, lat, doy + d, k) for d in range(n)]) / n)
        doy += n
    return out


def thornthwaite(ctx, ts, lat, leaps):
    """PET of every month, by the published formula"""
    t0 = [float("nan") if not S.present(ctx, t) else (0.0 if bool(t < 0) else t) for t in ts]
    means = []
    for m in range(12):
        there = [t for t in t0[m::12] if S.present(ctx, t)]
        means.append(ctx.sum(there) / len(there))
    heat = ctx.sum([ctx.pow(x / 5.0, 1.514) for x in means])
    if bool(heat == 0):
        return [t if not S.present(ctx, t) else 0.0 for t in t0]
    a = 6.75e-07 * heat * heat * heat - 7.71e-05 * heat * heat + 1.792e-02 * heat + 0.49239
    light = {}
    out = []
    for i, t in enumerate(t0):
        if not S.present(ctx, t):
            out.append(t)
            continue
        leap = leaps[i // 12]
        if leap not in light:
            light[leap] = day_lengths(ctx, lat, leap)
        out.append(16.0 * (light[leap][i % 12] / 12.0) * (month_days(leap)[i % 12] / 30.0) * ctx.pow(10.0 * t / heat, a))
    return out


CLIMATES = dict(temperate=lambda i: 12.0 + (i * 7) % 11, frost=lambda i: -9.0 + 4.0 * ((i % 12) if i % 12 < 7 else 13 - i % 12) + (i // 12) * 0.5,
                frozen=lambda i: -20.0 + (i * 5) % 9)


def go(ctx, xs, lat, two_d, y0, years):
    leaps = [bool(ctx.isleap(y0 + y)) for y in range(years)]
    want = thornthwaite(ctx, xs, lat, leaps)
    v = ctx.arr(xs)
    if two_d:
        v = v.reshape(years, 12)
    ind = ctx.mod("climate_indices.indices")
    o = ctx.call(ind.pet, v, lat, y0)
    ctx.check("PET returns", o.ok())
    if o.ok():
        got = ctx.items(o.val)
        ctx.check("as many values as temperatures", len(got) == len(want))
        for i, (g, w) in enumerate(zip(got, want)):
            ctx.check("PET by the formula", ctx.close(g, w), at="month %d" % i)


def h_temps(ctx, lat, climate, at, n, lo=-30.0, hi=45.0, two_d=False):
    xs = [CLIMATES[climate](i) for i in range(n)]
    for i in at:
        xs[i] = ctx.real("t%d" % i, lo, hi, nan=True)
    y0 = ctx.int("start", 1850, 2200)
    go(ctx, xs, lat, two_d, y0, -(-n // 12))


def h_lat(ctx, climate, y0):
    xs = [CLIMATES[climate](i) for i in range(12)]
    lat = ctx.real("lat", -90.0, 90.0)
    go(ctx, xs, lat, False, y0, 1)


def CASES(tier):
    big = tier != "quick"
    out = []

    def add(name, h, **p):
        out.append(dict(name=name, fn=h, params=p))
    n = 26 if not big else 50
    for lat in (-90.0, -66.6, -38.2, 0.0, 12.3, 45.0, 67.1, 78.0, 90.0):
        add("latitude %s temperate" % lat, "h_temps", lat=lat, climate="temperate", at=(3,), n=n)
        if big or lat in (-66.6, 45.0):
            add("latitude %s frost" % lat, "h_temps", lat=lat, climate="frost", at=(0, 14), n=n)
    add("frozen", "h_temps", lat=70.0, climate="frozen", at=(6,), n=n)
    add("frozen, first months", "h_temps", lat=-30.0, climate="frozen", at=(0, 12, 23), n=24, lo=-40.0, hi=0.0)
    add("two-dimensional", "h_temps", lat=45.0, climate="frost", at=(1, 13), n=24, two_d=True)
    add("last month of a partial year", "h_temps", lat=-20.0, climate="temperate", at=(n - 1,), n=n)
    add("one year", "h_temps", lat=33.0, climate="temperate", at=(1,), n=12, lo=0.0)
    add("hot", "h_temps", lat=15.0, climate="temperate", at=(1, 5), n=12, lo=26.0, hi=60.0)
    for y in (1999, 2000, 1900):
        add("any latitude, %d" % y, "h_lat", climate="frost", y0=y)
    return out
