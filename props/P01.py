"""Sliding sums over the time scale (compute.sum_to_scale, compute.scale_values)."""
BOUNDS = ("sum_to_scale: every length 1..9 (thorough 1..16) and every scale 1..length+2, lengths 14, 26, 40, 64 (thorough 75, 130) with common scales up to 60 (thorough 120), values any reals, each possibly "
          "missing. scale_values: 1-D and 2-D monthly input of 1..2 years plus partial years, scales 1..4, values any "
          "reals incl. negative and missing; daily reshaping at 366 and 370 values with 3 symbolic values.")
OUTSIDE = "longer series and scales; masked arrays."


def h_sum(ctx, n, scale):
    c = ctx.mod("climate_indices.compute")
    v = ctx.reals("v", n, nan=True)
    o = ctx.call(c.sum_to_scale, v, scale)
    ctx.check("sum_to_scale returns", o.ok())
    if not o.ok():
        return
    xs = ctx.items(v)
    want = []
    for i in range(n):
        if i < scale - 1:
            want.append(float("nan"))
        else:
            want.append(ctx.sum(xs[i - scale + 1:i + 1]))
    ctx.same_array("sum of the window, missing when incomplete", o.val, ctx.arr(want))
    ctx.cover("a window with a missing value", ctx.And(n >= 2, ctx.isnan(xs[-1])))


def h_scale(ctx, n, scale, two_d):
    c = ctx.mod("climate_indices.compute")
    v = ctx.reals("v", n, -5.0, 100.0, nan=True)
    xs = ctx.items(v)
    inp = v.reshape(n // 12, 12) if two_d else v
    o = ctx.call(c.scale_values, inp, scale, c.Periodicity.monthly)
    ctx.check("scale_values returns", o.ok())
    if not o.ok():
        return
    if bool(ctx.And([ctx.isnan(x) for x in xs])):
        ctx.check("all-missing input stays missing", ctx.And([ctx.isnan(x) for x in ctx.items(o.val)]))
        return
    clipped = [ctx.ite(ctx.isnan(x), x, ctx.max(x, 0.0)) for x in xs]
    rows = -(-n // 12)
    want = []
    for i in range(rows * 12):
        if i < scale - 1 or i >= n:
            want.append(float("nan"))
        else:
            want.append(ctx.sum(clipped[i - scale + 1:i + 1]))
    ctx.same_array("(years, 12) of window sums with negatives as zero", o.val, ctx.arr(want).reshape(rows, 12))


def h_scale_daily(ctx, n, scale):
    c = ctx.mod("climate_indices.compute")
    base = [float((i * 37) % 11) for i in range(n)]
    for k in (0, 5, n - 1):
        base[k] = ctx.real("v%d" % k, -3.0, 50.0, nan=True)
    o = ctx.call(c.scale_values, ctx.arr(base), scale, c.Periodicity.daily)
    ctx.check("scale_values returns", o.ok())
    if not o.ok():
        return
    clipped = [ctx.ite(ctx.isnan(x), x, ctx.max(x, 0.0)) for x in base]
    rows = -(-n // 366)
    want = [float("nan") if i < scale - 1 or i >= n else ctx.sum(clipped[i - scale + 1:i + 1])
            for i in range(rows * 366)]
    ctx.same_array("(years, 366) of window sums with negatives as zero", o.val, ctx.arr(want).reshape(rows, 366))


def CASES(tier):
    out = []
    N = 9 if tier == "quick" else 16
    for n in range(1, N + 1):
        for s in range(1, n + 3):
            out.append(dict(name="sum n=%d scale=%d" % (n, s), fn="h_sum", params=dict(n=n, scale=s)))
    for n, ss in [(14, (12,)), (26, (12, 24)), (40, (6, 9, 18, 24, 36))] + ([(75, (48, 60, 72)), (130, (12, 90, 120))] if tier != "quick" else [(64, (48, 60))]):
        for s in ss:
            out.append(dict(name="sum n=%d scale=%d" % (n, s), fn="h_sum", params=dict(n=n, scale=s)))
    for n, s, d in [(12, 1, False), (12, 3, True), (14, 2, False), (24, 1, True), (24, 4, False), (5, 2, False)]:
        out.append(dict(name="scale_values n=%d scale=%d 2d=%s" % (n, s, d), fn="h_scale",
                        params=dict(n=n, scale=s, two_d=d)))
    for n, s in [(366, 2), (370, 3)]:
        out.append(dict(name="scale_values daily n=%d scale=%d" % (n, s), fn="h_scale_daily", params=dict(n=n, scale=s)))
    return out
