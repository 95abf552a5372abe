"""Hargreaves PET against an independent statement of FAO-56 equation 52."""
import math
import _spec as S

BOUNDS = ("one-dimensional input of 1, 10, 366 and 400 (thorough 800) days, two-dimensional input of 1, 2 (thorough 3) years of 366 days; minimum, maximum and mean temperature symbolic (-60..60 Celsius, maximum at "
          "least the minimum, each possibly missing) on up to seven days, fixed on the others; latitudes -90, -66.5, -23.4, 0, 38.5, 70, 90 and any real latitude -90..90 "
          "with fixed temperatures; sizes that differ in any one or two of the arrays by 1 to 366 values.")
OUTSIDE = "days whose maximum is below the minimum; the accuracy of the trigonometric functions."
OPTS = dict(check_ms=12000)
SECONDS = dict(quick=100, thorough=600)


def radiation(ctx, lat, doy):
    """extraterrestrial radiation, FAO-56 equations 21 to 25 [MJ m-2 day-1]"""
    dr = 1.0 + 0.033 * math.cos(2.0 * math.pi / 365.0 * doy)
    dec = 0.409 * math.sin(2.0 * math.pi / 365.0 * doy - 1.39)
    if isinstance(lat, float):
        phi = math.radians(lat)
        ws = math.acos(min(max(-math.tan(phi) * math.tan(dec), -1.0), 1.0))
        s = ws * math.sin(phi) * math.sin(dec) + math.cos(phi) * math.cos(dec) * math.sin(ws)
    else:
        phi = lat * math.pi / 180.0
        ws = ctx.acos(ctx.min(1.0, ctx.max(-1.0, -ctx.tan(phi) * math.tan(dec))))
        s = ws * ctx.sin(phi) * math.sin(dec) + ctx.cos(phi) * math.cos(dec) * ctx.sin(ws)
    return 24.0 * 60.0 / math.pi * 0.0820 * dr * s


def inputs(ctx, n, at):
    lo = [float(-5 + (i * 7) % 13) for i in range(n)]
    hi = [float(9 + (i * 5) % 11) for i in range(n)]
    mean = [float(3 + (i * 3) % 7) for i in range(n)]
    for i in at:
        lo[i] = ctx.real("lo%d" % i, -60.0, 60.0, nan=True)
        hi[i] = ctx.real("hi%d" % i, -60.0, 60.0, nan=True)
        mean[i] = ctx.real("mean%d" % i, -60.0, 60.0, nan=True)
        ctx.assume(ctx.Or(ctx.isnan(lo[i]), ctx.isnan(hi[i]), hi[i] > lo[i] + 1e-6, hi[i] == lo[i]))
    return lo, hi, mean


def go(ctx, n, at, lat, width=None):
    eto = ctx.mod("climate_indices.eto")
    lo, hi, mean = inputs(ctx, n, at)
    days = list(range(min(n, 366)))
    if not isinstance(lat, float):
        days = sorted(set([0, 31, 58, 59, 79, 80, 171, 265, 355, 364, 365]) & set(days))
    ra = {d: radiation(ctx, lat, d + 1) for d in days}
    want = {}
    for i in range(n):
        if i % 366 in ra:
            if i in at and not (S.present(ctx, lo[i]) and S.present(ctx, hi[i]) and S.present(ctx, mean[i])):
                want[i] = float("nan")
            else:
                want[i] = 0.0023 * (mean[i] + 17.8) * ctx.sqrt(hi[i] - lo[i]) * 0.408 * ra[i % 366]
    v = [ctx.arr(x) for x in (lo, hi, mean)]
    if width:
        v = [x.reshape(n // width, width) for x in v]
    o = ctx.call(eto.eto_hargreaves, v[0], v[1], v[2], lat)
    ctx.check("Hargreaves PET returns", o.ok())
    if o.ok():
        got = ctx.items(o.val)
        ctx.check("as many values as days", len(got) == n)
        for i in sorted(want):
            ctx.check("PET by the formula", ctx.close(got[i], want[i]), at="day %d" % i)


def h_days(ctx, n, at, lat, width=None):
    go(ctx, n, at, lat, width)


def h_lat(ctx, n, at=()):
    go(ctx, n, at, ctx.real("lat", -90.0, 90.0))


def h_sizes(ctx, which, width=None):
    """arrays of different sizes are refused"""
    eto = ctx.mod("climate_indices.eto")
    n = 366
    d = ctx.conc(ctx.choice("more", [1, 2, 5, 12, 365, 366]))
    a = []
    for k in range(3):
        m = n + (d if which[k] == "+" else 0)
        x = ctx.arr([float(k * 5 + i % 7) for i in range(m)])
        if width and m % width == 0:
            x = x.reshape(m // width, width)
        a.append(x)
    o = ctx.call(eto.eto_hargreaves, a[0], a[1], a[2], 40.0)
    ctx.check("different sizes raise ValueError", o.raised("ValueError"))


def CASES(tier):
    big = tier != "quick"
    out = []

    def add(name, h, **p):
        out.append(dict(name=name, fn=h, params=p))
    for lat in (-90.0, -66.5, -23.4, 0.0, 38.5, 70.0, 90.0):
        add("latitude %s" % lat, "h_days", n=400, at=(0, 58, 366), lat=lat)
    add("one day", "h_days", n=1, at=(0,), lat=38.5)
    add("ten days", "h_days", n=10, at=(0, 3, 9), lat=-38.5)
    add("a year", "h_days", n=366, at=(59, 365), lat=12.0)
    add("two-dimensional", "h_days", n=366, at=(0, 59, 365), lat=38.5, width=366)
    add("two years two-dimensional", "h_days", n=732, at=(365, 366, 731), lat=-38.5, width=366)
    if big:
        add("three years two-dimensional", "h_days", n=1098, at=(364, 366, 1097), lat=50.0, width=366)
        add("long", "h_days", n=800, at=(0, 365, 366, 731), lat=-10.0)
    add("any latitude", "h_lat", n=366)
    add("any latitude, a symbolic day", "h_lat", n=100, at=(80,))
    for w in ("+  ", " + ", "  +", "++ ", "+ +", " ++"):
        add("sizes " + w.replace(" ", "="), "h_sizes", which=w)
        add("sizes two-dimensional " + w.replace(" ", "="), "h_sizes", which=w, width=366)
    return out
