"""More precipitation never lowers, more PET never raises an index value."""
import _spec as S

BOUNDS = ("24 (thorough 36) monthly or 732 daily values under fixed fitting parameters (several per distribution, with and without a share of zeros, positive, zero and negative skew), scales 1, 2, 3, "
          "7 and 12; one value (any of several positions, thorough all) raised by any amount from any amount 0.001..400 mm, PET likewise; two values of the same calendar "
          "month in either order, also with symbolic gamma shape and scale.")
OUTSIDE = ("zero accumulations under gamma and accumulations at or below a Pearson Type III lower limit (whose probability is fixed apart from the curve); the monotonicity of the gamma and Pearson cumulative "
           "distribution functions and of the normal quantile themselves, which are axioms here.")
ASSUMPTIONS = ["the cumulative distribution functions and the normal quantile function of scipy are non-decreasing"]
OPTS = dict(check_ms=15000, mono=True)
SECONDS = dict(quick=120, thorough=600)

GAMMA = dict(plain=(2.3, 31.0, 0.4, 1.5), odd=(0.6, 80.0, 0.1, -2.0))
PEARSON = dict(positive=(0.0, 90.0, 45.0, 0.9), share=(0.2, 70.0, 55.0, 1.6), flat=(0.1, 80.0, 40.0, 0.0), negative=(0.0, 160.0, 60.0, -0.8), upper=(0.3, 120.0, 50.0, -1.4))


def params(ctx, dist, which, off=0.0, n=12):
    if dist == "gamma":
        a, b, da, db = GAMMA[which]
        return dict(alpha=ctx.arr([a + da * (i % 12) for i in range(n)]), beta=ctx.arr([b + db * (i % 12) for i in range(n)]))
    p, l, s, k = PEARSON[which]
    return dict(prob_zero=ctx.arr([p] * n), loc=ctx.arr([l + off + i % 12 for i in range(n)]), scale=ctx.arr([s + 0.5 * (i % 12) for i in range(n)]),
                skew=ctx.arr([k] * n))


def limits(which, off, n=12):
    """lower limit of the Pearson curve of each calendar step"""
    p, l, s, k = PEARSON[which]
    return [l + off + i % 12 - 2 * (s + 0.5 * (i % 12)) / k if k > 0 else None for i in range(n)]


def series(n, m=97):
    return [float(31 + (i * 37) % m) for i in range(n)]


def run(ctx, fn, xs, es, scale, dist, fp, per):
    ind = ctx.mod("climate_indices.indices")
    cp = ctx.mod("climate_indices.compute")
    D, P = ind.Distribution[dist], cp.Periodicity[per]
    if fn == "spi":
        return ctx.call(ind.spi, ctx.arr(xs), scale, D, 2000, 2000, 2001, P, fp)
    return ctx.call(ind.spei, ctx.arr(xs), ctx.arr(es), scale, D, P, 2000, 2000, 2001, fp)


def h_raise(ctx, fn, dist, which, scale, at, n=24, pet=False, per="monthly"):
    steps = 12 if per == "monthly" else 366
    xs, es = series(n), [float(3 + (i * 11) % 29) for i in range(n)]
    a = ctx.real("a", 0.001, 400.0)
    d = ctx.real("d", 0.0, 400.0)
    off = 1000.0 if fn == "spei" else 0.0
    fp = params(ctx, dist, which, off * scale, steps)
    lo, hi = list(xs), list(xs)
    le, he = list(es), list(es)
    if pet:
        le[at], he[at] = a + d, a       # less PET on the second
    else:
        lo[at], hi[at] = a, a + d
    if dist == "pearson":
        lim = limits(which, off * scale, steps)
        for i in range(at, min(n, at + scale)):
            if i >= scale - 1 and lim[i % steps] is not None:
                w = ctx.sum([(lo[j] - le[j] + off) if fn == "spei" else lo[j] for j in range(i - scale + 1, i + 1)])
                ctx.assume(w > lim[i % steps] + 1e-6)
        k = PEARSON[which][3]
        if k < 0:       # rounding decides at the upper limit
            for i in range(at, min(n, at + scale)):
                if i >= scale - 1:
                    l = PEARSON[which][1] + off * scale + i % 12 - 2 * (PEARSON[which][2] + 0.5 * (i % 12)) / k
                    for v, e in ((lo, le), (hi, he)):
                        w = ctx.sum([(v[j] - e[j] + off) if fn == "spei" else v[j] for j in range(i - scale + 1, i + 1)])
                        ctx.assume(ctx.abs(w - l) > 1e-6)
    o = run(ctx, fn, lo, le, scale, dist, fp, per)
    o = ctx.copy(o.val) if o.ok() else None
    p = run(ctx, fn, hi, he, scale, dist, fp, per)
    ctx.check("index returns", o is not None and p.ok())
    if o is None or not p.ok():
        return
    u, v = ctx.items(o), ctx.items(p.val)
    ctx.check("as many values", len(u) == n and len(v) == n)
    for i in range(n):
        if at <= i < at + scale and i >= scale - 1:
            ctx.check("present", ctx.And(ctx.Not(ctx.isnan(u[i])), ctx.Not(ctx.isnan(v[i]))), at=str(i))
            ctx.check("more water, no lower index", v[i] >= u[i] - 1e-9, at=str(i))
        else:
            ctx.check("other windows keep their value", ctx.eq(u[i], v[i]), at=str(i))


def h_order(ctx, fn, dist, which, scale, m, years=3):
    """within one series: the wetter of two years scores at least as high"""
    n = years * 12
    xs, es = [40.0 + i % 12 for i in range(n)], [7.0 + i % 12 for i in range(n)]
    a, b = ctx.real("a", 0.001, 900.0), ctx.real("b", 0.001, 900.0)
    i, j = 12 + m, (years - 1) * 12 + m
    xs[i], xs[j] = a, b
    off = 1000.0 if fn == "spei" else 0.0
    fp = params(ctx, dist, which, off * scale)
    rest = sum(40.0 + k % 12 for k in range(i - scale + 1, i))
    if fn == "spei":
        rest += off * scale - sum(7.0 + k % 12 for k in range(i - scale + 1, i + 1))
    if dist == "pearson":
        p, l, s, k = PEARSON[which]
        lim = l + off * scale + m - 2 * (s + 0.5 * m) / k if k else None
        for x in (a, b):
            if lim is not None:
                ctx.assume(x + rest > lim + 1e-6) if k > 0 else ctx.assume(ctx.abs(x + rest - lim) > 1e-6)
    o = run(ctx, fn, xs, es, scale, dist, fp, "monthly")
    ctx.check("index returns", o.ok())
    if o.ok():
        u = ctx.items(o.val)
        ctx.check("the wetter year scores no lower", ctx.And(ctx.Implies(a <= b, u[i] <= u[j] + 1e-9), ctx.Implies(b <= a, u[j] <= u[i] + 1e-9)))


def h_free(ctx, m):
    """two years' accumulations under any gamma shape and scale"""
    cp = ctx.mod("climate_indices.compute")
    xs = series(36)
    a, b = ctx.real("a", 0.001, 900.0), ctx.real("b", 0.001, 900.0)
    xs[m], xs[24 + m] = a, b
    al, be = [2.0] * 12, [30.0] * 12
    al[m], be[m] = ctx.real("alpha", 0.05, 50.0), ctx.real("beta", 0.05, 200.0)
    if m:
        xs[12 + m] = 0.0
    o = ctx.call(cp.transform_fitted_gamma, ctx.arr(xs), 2000, 2000, 2002, cp.Periodicity.monthly, ctx.arr(al), ctx.arr(be))
    ctx.check("transform returns", o.ok())
    if o.ok():
        u = ctx.items(o.val)
        ctx.check("the wetter year scores no lower", ctx.And(ctx.Implies(a <= b, u[m] <= u[24 + m] + 1e-9), ctx.Implies(b <= a, u[24 + m] <= u[m] + 1e-9)))


def CASES(tier):
    big = tier != "quick"
    out = []

    def add(name, h, **p):
        out.append(dict(name=name, fn=h, params=p))
    n = 24 if not big else 36
    for dist, sets in (("gamma", GAMMA), ("pearson", PEARSON)):
        for which in sets:
            for fn in ("spi", "spei"):
                for scale in (1, 3) + ((2, 7, 12) if big or which in ("plain", "positive") else ()):
                    ats = sorted(set([0, 5, 11, 12, 13, n - 2, n - 1])) if big else [(scale * 5) % 12] + ([n - 1] if which in ("plain", "share") else [])
                    for at in ats:
                        nm = "%s %s %s scale=%d at %d" % (fn, dist, which, scale, at)
                        add(nm, "h_raise", fn=fn, dist=dist, which=which, scale=scale, at=at, n=n)
                        if fn == "spei":
                            add(nm + " PET", "h_raise", fn=fn, dist=dist, which=which, scale=scale, at=at, n=n, pet=True)
                    add("%s %s %s scale=%d order" % (fn, dist, which, scale), "h_order", fn=fn, dist=dist, which=which, scale=scale, m=7 if scale == 1 else 0)
    add("daily gamma", "h_raise", fn="spi", dist="gamma", which="plain", scale=3, at=59, n=732, per="daily")
    add("daily pearson", "h_raise", fn="spei", dist="pearson", which="positive", scale=2, at=366, n=732, per="daily")
    for m in (0, 6):
        add("any gamma %d" % m, "h_free", m=m)
    return out
