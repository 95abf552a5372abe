"""Specifications shared by several properties (independent of the code under test)."""
NAN = float("nan")
STEPS = {"monthly": 12, "daily": 366}


def sums(ctx, xs, scale):
    """window sums of a list; missing when incomplete"""
    out = []
    for i in range(len(xs)):
        out.append(NAN if i < scale - 1 else ctx.sum(xs[i - scale + 1:i + 1]))
    return out


def grid(xs, steps):
    """rows of one year, padded with missing"""
    xs = list(xs)
    while len(xs) % steps:
        xs.append(NAN)
    return [xs[i:i + steps] for i in range(0, len(xs), steps)]


def present(ctx, x):
    """path decision: is this value there"""
    return not bool(ctx.isnan(x))


def gamma_fit(ctx, vals):
    """shape and scale by Thom's estimator over the positive values"""
    pos = [x for x in vals if present(ctx, x) and not bool(x == 0)]
    if not pos:
        return NAN, NAN
    mean = ctx.sum(pos) / len(pos)
    a = ctx.log(mean) - ctx.sum([ctx.log(x) for x in pos]) / len(pos)
    alpha = ctx.div(1 + ctx.sqrt(1 + 4 * a / 3), 4 * a)
    return alpha, ctx.div(mean, alpha)


def p_zero(ctx, col, per_year=False):
    """share of zeros among the values that are there"""
    there = [x for x in col if present(ctx, x)]
    z = len([x for x in there if bool(x == 0)])
    n = len(col) if per_year else len(there)
    return z / n if n else 0.0


def clip309(ctx, v):
    return ctx.ite(ctx.isnan(v), v, ctx.max(ctx.min(v, 3.09), -3.09))


def unclipped(ctx, v):
    return v


def gamma_index(ctx, x, p0, alpha, beta, legacy_zero=False, clip=clip309):
    """index value of one accumulation; legacy_zero: recorded finding I, zeros come out missing"""
    if not present(ctx, x):
        return NAN
    if bool(x == 0):
        if legacy_zero:
            return NAN
        return clip(ctx, ctx.ppf(p0))
    return clip(ctx, ctx.ppf(p0 + (1 - p0) * ctx.gamma_cdf(x, alpha, beta)))


def pearson_index(ctx, x, p0, loc, scale, skew, clip=clip309):
    """index value of one accumulation under the Pearson Type III fit"""
    if not present(ctx, x):
        return NAN
    if bool(scale == 0) and bool(skew == 0):
        return NAN      # no fit for this calendar step
    if bool(x < 0.0005):
        f = 0.0 if bool(p0 > 0) else 0.0005
    else:
        f = ctx.pearson3_cdf(x, skew, loc, scale)
    if bool(skew > 0) or bool(skew < 0):
        limit = loc - ctx.div(2 * scale, skew)
        ctx.assume(ctx.abs(x - limit) > 1e-6)     # where rounding decides
        if bool(skew > 0) and bool(x <= limit):
            f = 0.0005
        elif bool(skew < 0) and bool(x >= limit):
            f = 0.9995
    p = p0 + (1 - p0) * f
    return clip(ctx, ctx.ppf(ctx.max(ctx.min(p, 1.0), 0.0)))
