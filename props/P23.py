"""L-moment fit of the Pearson Type III distribution (lmoments.fit)."""
import math

BOUNDS = ("samples of 4 and 5 values in any order and of 4..7 (thorough 4..9) values in one to four orders each, any reals in "
          "0..1000 with any ties, up to 2 more missing values; "
          "samples of fewer than 4 values.")
OUTSIDE = "larger samples; rounding of the sums for nearly constant samples."
OPTS = dict(check_ms=20000)


def spec(ctx, xs, n):
    """Hosking's estimators from the sorted sample; None stands for 'no fit'"""
    s = ctx.sort(xs)[:n]
    b0 = ctx.sum(s) / n
    b1 = ctx.sum([i * x for i, x in enumerate(s)]) / (n * (n - 1))
    b2 = ctx.sum([i * (i - 1) * x for i, x in enumerate(s)]) / (n * (n - 1) * (n - 2))
    l1, l2, l3 = b0, 2 * b1 - b0, 6 * b2 - 6 * b1 + b0
    return l1, l2, l3


def h_fit(ctx, n, miss, order=None):
    lm = ctx.mod("climate_indices.lmoments")
    if order is None:
        xs = [ctx.real("x%d" % i, 0.0, 1000.0) for i in range(n)]
    else:
        up = [ctx.real("lowest", 0.0, 1000.0)]
        for i in range(1, n):
            up.append(up[-1] + ctx.real("gap%d" % i, 0.0, 1000.0))
        xs = [up[i] for i in order]
    full = list(xs)
    for i in range(miss):
        full.insert((i * 3) % (len(full) + 1), float("nan"))
    l1, l2, l3 = spec(ctx, xs, n)
    # clear of the borders where rounding decides
    ctx.assume(ctx.Or(l2 > 1e-3, ctx.And([x == xs[0] for x in xs[1:]])))
    o = ctx.call(lm.fit, ctx.arr(full))
    if not bool(l2 > 0):
        ctx.check("a constant sample has no fit: ValueError", o.raised("ValueError"))
        return
    t3 = ctx.div(l3, l2)
    ctx.assume(ctx.And(ctx.abs(ctx.abs(t3) - 1) > 1e-6, ctx.abs(ctx.abs(t3) - 1e-6) > 1e-9,
                       ctx.abs(ctx.abs(t3) - 0.333333333) > 1e-6))
    if bool(ctx.abs(t3) >= 1):
        ctx.check("no fit for an impossible L-skewness: ValueError", o.raised("ValueError"))
        return
    ctx.check("fit returns", o.ok())
    if not o.ok():
        return
    r = o.val
    ctx.check("location is the mean", ctx.close(r["loc"], l1))
    a = ctx.abs(t3)
    if bool(a <= 1e-6):
        ctx.check("scale without skew", ctx.close(r["scale"], l2 * math.sqrt(math.pi)))
        ctx.check("no skew", ctx.close(r["skew"], 0.0))
        return
    if bool(a < 0.333333333):
        t = 3 * math.pi * a * a
        alpha = ctx.div(1 + 0.2906 * t, t * (1 + t * (0.1882 + t * 0.0442)))
    else:
        t = 1 - a
        alpha = ctx.div(t * (0.36067 + t * (-0.59567 + t * 0.25361)),
                        1 + t * (-2.78861 + t * (2.56096 + t * -0.77045)))
    root = ctx.sqrt(alpha)
    ctx.check("scale", ctx.close(r["scale"], math.sqrt(math.pi) * l2 * ctx.exp(ctx.lgamma(alpha) - ctx.lgamma(alpha + 0.5)) * root))
    ctx.check("skew has the sign of the third L-moment", ctx.close(r["skew"], ctx.ite(t3 < 0, ctx.div(-2.0, root), ctx.div(2.0, root))))
    ctx.cover("negative skew", t3 < -0.01)
    ctx.cover("strong skew", a > 0.5)


def h_few(ctx, n, miss):
    lm = ctx.mod("climate_indices.lmoments")
    xs = [ctx.real("x%d" % i, 0.0, 1000.0) for i in range(n)] + [float("nan")] * miss
    o = ctx.call(lm.fit, ctx.arr(xs))
    ctx.check("fewer than four values: ValueError", o.raised("ValueError"))


def h_input(ctx, n):
    lm = ctx.mod("climate_indices.lmoments")
    a = ctx.reals("x", n, 0.0, 1000.0)
    b = ctx.copy(a)
    ctx.call(lm.fit, a)
    ctx.check("the sample is left as it was", ctx.same_exact(a, b))


def CASES(tier):
    N = 7 if tier == "quick" else 9
    out = []
    for n, m in [(4, 0), (4, 1), (5, 0)] + ([(4, 2), (5, 1), (6, 0)] if tier != "quick" else []):
        out.append(dict(name="any order n=%d missing=%d" % (n, m), fn="h_fit", params=dict(n=n, miss=m)))
    for n in range(4, N + 1):
        up = list(range(n))
        for k, p in enumerate([up, up[::-1], up[::2] + up[1::2], up[n // 2:] + up[:n // 2]]):
            if tier == "quick" and (n > 5 and k or (n, k) == (5, 1)):
                continue
            out.append(dict(name="order %d n=%d missing=%d" % (k, n, (0, 2)[k % 2]), fn="h_fit",
                            params=dict(n=n, miss=(0, 2)[k % 2], order=p)))
    for n in (1, 2, 3):
        out.append(dict(name="few n=%d" % n, fn="h_few", params=dict(n=n, miss=3)))
    out.append(dict(name="input", fn="h_input", params=dict(n=5)))
    return out
