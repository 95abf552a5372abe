"""Numeric helpers (utils.get_tolerance, sign_change, rmse, is_data_valid, count_zeros_and_non_missings)."""
BOUNDS = ("arrays of 1..7 (thorough 1..10) symbolic reals; sign_change, is_data_valid and count_zeros_and_non_missings with each "
          "value possibly missing (rmse: up to 5), get_tolerance with any coordinate spacing.")
OUTSIDE = "longer arrays; infinities; arrays that are partly masked."


def h_tol(ctx, n):
    u = ctx.mod("climate_indices.utils")
    xs = [ctx.real("x%d" % i, -400.0, 400.0) for i in range(n)]
    o = ctx.call(u.get_tolerance, ctx.arr(xs))
    ctx.check("get_tolerance returns", o.ok())
    if not o.ok():
        return
    t = o.val
    ctx.check("always greater than zero", t > 0)
    gaps = [ctx.abs(xs[i + 1] - xs[i]) for i in range(n - 1)]
    for g in gaps:
        # distinct coordinates stay distinct: the tolerance is well below every spacing that is not itself negligible
        ctx.check("at most a tenth of every spacing", ctx.Implies(g > 1e-12, t * 10 <= g * (1 + 1e-9)))
    if gaps:
        m = gaps[0]
        for g in gaps[1:]:
            m = ctx.min(m, g)
        ctx.check("a tenth of the smallest spacing", ctx.Implies(m > 1e-12, ctx.close(t, m / 10)))


def h_sign(ctx, n, two_d):
    u = ctx.mod("climate_indices.utils")
    a, b = ctx.reals("a", n, nan=True), ctx.reals("b", n, nan=True)
    xa, xb = ctx.items(a), ctx.items(b)
    o = ctx.call(u.sign_change, a.reshape(2, n // 2) if two_d else a, b)
    ctx.check("sign_change returns", o.ok())
    if not o.ok():
        return
    ctx.check("shape of the first argument", tuple(o.val.shape) == ((2, n // 2) if two_d else (n,)))
    got = ctx.items(o.val)
    for i in range(n):
        x, y = xa[i], xb[i]
        same = ctx.Or(ctx.And(x > 0, y > 0), ctx.And(x < 0, y < 0), ctx.And(ctx.eq(x, 0.0), ctx.eq(y, 0.0)))
        ctx.check("true exactly where the signs differ", ctx.eq(ctx.ite(got[i], 1.0, 0.0), ctx.ite(same, 0.0, 1.0)), at=str(i))
    o = ctx.call(u.sign_change, a, ctx.arr(xb + [1.0]))
    ctx.check("different sizes are rejected", o.raised("ValueError"))


def h_rmse(ctx, n):
    u = ctx.mod("climate_indices.utils")
    a, b = ctx.reals("a", n, -100, 100, nan=n <= 5), ctx.reals("b", n, -100, 100)
    o = ctx.call(u.rmse, a, b)
    ctx.check("rmse returns", o.ok())
    if not o.ok():
        return
    s = ctx.sum([(x - y) * (x - y) for x, y in zip(ctx.items(a), ctx.items(b))])
    ctx.check("root of the mean squared difference", ctx.close(o.val, ctx.sqrt(s / n)))
    miss = ctx.Or([ctx.isnan(x) for x in ctx.items(a)])
    ctx.check("missing exactly if a value is", ctx.eq(ctx.ite(ctx.isnan(o.val), 1, 0), ctx.ite(miss, 1, 0)))


def h_valid(ctx, n, two_d):
    u = ctx.mod("climate_indices.utils")
    a = ctx.reals("a", n, nan=True)
    xs = ctx.items(a)
    o = ctx.call(u.is_data_valid, a.reshape(n // 2, 2) if two_d else a)
    ctx.check("is_data_valid returns", o.ok())
    if o.ok():
        some = ctx.Or([ctx.Not(ctx.isnan(x)) for x in xs])
        ctx.check("valid exactly if a value is there", ctx.eq(ctx.ite(o.val, 1, 0), ctx.ite(some, 1, 0)))
    o = ctx.call(u.is_data_valid, xs)
    ctx.check("a plain list is no valid data", o.ok() and not o.val)


def h_count(ctx, n):
    u = ctx.mod("climate_indices.utils")
    a = ctx.reals("a", n, nan=True)
    xs = ctx.items(a)
    o = ctx.call(u.count_zeros_and_non_missings, a)
    ctx.check("count_zeros_and_non_missings returns", o.ok())
    if o.ok():
        z, m = o.val
        ctx.check("zeros", ctx.eq(z, ctx.sum([ctx.ite(x == 0, 1, 0) for x in xs])))
        ctx.check("values that are there", ctx.eq(m, ctx.sum([ctx.ite(ctx.isnan(x), 0, 1) for x in xs])))


def CASES(tier):
    N = 7 if tier == "quick" else 10
    out = []
    for n in range(1, N + 1):
        out.append(dict(name="tolerance n=%d" % n, fn="h_tol", params=dict(n=n)))
        out.append(dict(name="count n=%d" % n, fn="h_count", params=dict(n=n)))
        out.append(dict(name="rmse n=%d" % n, fn="h_rmse", params=dict(n=n)))
        out.append(dict(name="sign n=%d" % n, fn="h_sign", params=dict(n=n, two_d=n % 2 == 0)))
        out.append(dict(name="valid n=%d" % n, fn="h_valid", params=dict(n=n, two_d=n % 2 == 0)))
    return out
