"""Percentage of normal."""
import _spec as S

BOUNDS = ("monthly series of 24, 25, 30 and 36 values, scales 1..4 (thorough also 12), 3 calendar-month columns symbolic (0..500 or missing), calibration first and last "
          "year any integers inside and beyond the data; daily: 2 years, 5 symbolic days; scale and years rejected as documented for all integers -20..60.")
OUTSIDE = "longer series; more symbolic columns; negative values; masked arrays."
OPTS = dict(check_ms=15000)


def want(ctx, xs, scale, steps, a, b):
    sm = S.sums(ctx, xs, scale)
    cal = sm[a * steps:(b + 1) * steps]
    out = []
    avg = {}
    for i, v in enumerate(sm):
        j = i % steps
        if j not in avg:
            c = [x for x in cal[j::steps] if S.present(ctx, x)]
            avg[j] = ctx.sum(c) / len(c) if c else S.NAN
        m = avg[j]
        ok = S.present(ctx, m) and bool(m > 0)
        out.append(ctx.div(v, m) if ok and S.present(ctx, v) else S.NAN)
    return out


def h_pnp(ctx, n, scale, where, a, b, daily=False):
    ind = ctx.mod("climate_indices.indices")
    cp = ctx.mod("climate_indices.compute")
    steps = 366 if daily else 12
    xs = [float(5 + (i * 31) % 47) for i in range(n)]
    for i in where:
        xs[i] = ctx.real("x%d" % i, 0.0, 500.0, nan=True)
        S.present(ctx, xs[i])
    y = ctx.int("start", 1850, 2100)
    w = want(ctx, xs, scale, steps, a, b)
    o = ctx.call(ind.percentage_of_normal, ctx.arr(xs), scale, y, y + a, y + b, cp.Periodicity.daily if daily else cp.Periodicity.monthly)
    ctx.check("percentage_of_normal returns", o.ok())
    if o.ok():
        ctx.same_array("accumulation over the calendar step's average in the calibration period", o.val, ctx.arr(w))


def h_zero(ctx, n, scale):
    """calendar months whose normal is zero, or that have no normal, have no percentage"""
    ind = ctx.mod("climate_indices.indices")
    cp = ctx.mod("climate_indices.compute")
    xs = [float(5 + (i * 31) % 47) for i in range(n)]
    for i in range(2, n, 12):
        xs[i] = 0.0
    for i in range(7, n, 12):
        xs[i] = S.NAN
    xs[n - 10] = ctx.real("x", 0.0, 100.0)
    w = want(ctx, xs, scale, 12, 0, n // 12 - 2)
    o = ctx.call(ind.percentage_of_normal, ctx.arr(xs), scale, 2000, 2000, 2000 + n // 12 - 2, cp.Periodicity.monthly)
    ctx.check("percentage_of_normal returns", o.ok())
    if o.ok():
        ctx.same_array("no normal, no percentage", o.val, ctx.arr(w))


def h_reject(ctx, n, daily):
    ind = ctx.mod("climate_indices.indices")
    cp = ctx.mod("climate_indices.compute")
    steps = 366 if daily else 12
    xs = [float(5 + (i * 31) % 47) for i in range(n)]
    c, d = ctx.int("c", -20, 60), ctx.int("d", -20, 60)
    ctx.assume(d >= c)
    bad = ctx.Or(c < 0, (d - c + 1) * steps > n)
    per = cp.Periodicity.daily if daily else cp.Periodicity.monthly
    if bool(bad):
        o = ctx.call(ind.percentage_of_normal, ctx.arr(xs), 1, 1990, 1990 + c, 1990 + d, per)
        ctx.check("impossible calibration years: ValueError", o.raised("ValueError"))


def h_scale(ctx):
    ind = ctx.mod("climate_indices.indices")
    cp = ctx.mod("climate_indices.compute")
    xs = ctx.arr([float(i) for i in range(24)])
    s = ctx.int("scale", -20, 0)
    o = ctx.call(ind.percentage_of_normal, xs, s, 1990, 1990, 1991, cp.Periodicity.monthly)
    ctx.check("scale below one: ValueError", o.raised("ValueError"))
    o = ctx.call(ind.percentage_of_normal, xs, None, 1990, 1990, 1991, cp.Periodicity.monthly)
    ctx.check("no scale: ValueError", o.raised("ValueError"))
    o = ctx.call(ind.percentage_of_normal, xs, 1, 1990, 1990, 1991, "monthly")
    ctx.check("unknown periodicity: ValueError", o.raised("ValueError"))


def CASES(tier):
    out = [dict(name="scale", fn="h_scale")]
    T = [(24, 1, [4, 16], 0, 1), (25, 2, [0, 12, 24], 0, 1), (30, 3, [14, 15], 0, 1), (36, 1, [4, 16, 28], 1, 2), (36, 4, [5, 20], 0, 0),
         (36, 2, [35, 11], 1, 1), (30, 1, [27, 3], 0, 1), (36, 3, [12, 13], 1, 2), (36, 1, [30], 0, 2)]
    if tier != "quick":
        T += [(48, 12, [10, 30], 0, 3), (48, 6, [10, 22, 34], 1, 2), (60, 1, [4, 16, 28, 40], 1, 3), (60, 3, [0, 12, 24], 2, 4)]
    for n, s, w, a, b in T:
        out.append(dict(name="monthly n=%d scale=%d %s cal=%d..%d" % (n, s, w, a, b), fn="h_pnp", params=dict(n=n, scale=s, where=w, a=a, b=b)))
    for s in (1, 2):
        out.append(dict(name="daily scale=%d" % s, fn="h_pnp", params=dict(n=732, scale=s, where=[0, 59, 366 + 59, 731], a=0, b=1, daily=True)))
        out.append(dict(name="no normal scale=%d" % s, fn="h_zero", params=dict(n=48, scale=s)))
    for n, d in [(36, False), (30, False), (732, True), (40, False), (800, True)]:
        out.append(dict(name="reject n=%d" % n, fn="h_reject", params=dict(n=n, daily=d)))
    return out
