"""Palmer's two-layer bucket: water is conserved and the layers stay within their limits."""
import _palmer as W

BOUNDS = ("one month of the bucket with every quantity symbolic: precipitation and potential evapotranspiration 0..60 inches, water capacity 0.1..20 inches, any content of "
          "the two layers within their capacity; through the public function, one or two years of calibration with up to three symbolic months (precipitation 0..30, potential evapotranspiration 0..20) "
          "for capacities 0.4, 1, 1.5, 5 and 10 inches: the coefficients alpha, beta, gamma, delta of all twelve months.")
OUTSIDE = "more symbolic months in a row; a capacity of zero."
OPTS = dict(check_ms=12000)
SECONDS = dict(quick=120, thorough=700)


def h_month(ctx, dry, thin):
    """the bucket's month, every input symbolic"""
    f, g = ctx.private("climate_indices.palmer", "_calc_recharge", "_calc_potential_loss")
    awc = ctx.real("awc", 0.1, 1.0) if thin else ctx.real("awc", 1.0, 20.0)
    p, pet = ctx.real("p", 0.0, 60.0), ctx.real("pet", 0.0, 60.0)
    ctx.assume(p < pet) if dry else ctx.assume(p >= pet)
    ss, su = ctx.real("ss", 0.0, 1.0), ctx.real("su", 0.0, 19.0)
    bot = 0.0 if thin else awc - 1.0
    ctx.assume(su <= bot)
    o = ctx.callp(f, p, pet, ss, su, awc)
    l = ctx.callp(g, pet, ss, su, awc)
    ctx.check("a month of the bucket returns", o.ok() and l.ok())
    if not (o.ok() and l.ok()):
        return
    et, tl, r, ro, s2, u2 = o.val
    e = 1e-9
    ctx.check("water is conserved", ctx.close(p + ss + su, et + ro + s2 + u2))
    ctx.check("evapotranspiration at most potential", et <= pet + e)
    ctx.check("evapotranspiration is not negative", et >= -e)
    ctx.check("surface layer within its limits", ctx.And(s2 >= -e, s2 <= 1.0 + e))
    ctx.check("underlying layer within its limits", ctx.And(u2 >= -e, u2 <= bot + e))
    ctx.check("loss is the water drawn from the soil", ctx.close(tl - r, ss + su - s2 - u2))
    ctx.check("loss or recharge", ctx.Or(tl == 0, r == 0))
    ctx.check("loss, recharge and runoff are not negative", ctx.And(tl >= -e, r >= -e, ro >= -e))
    ctx.check("runoff only from full soil", ctx.Or(ro <= e, ctx.And(s2 >= 1.0 - e, u2 >= bot - e)))
    ctx.check("loss at most potential loss", tl <= l.val + e)
    ctx.check("potential loss at most the soil's water", l.val <= ss + su + e)
    ctx.check("no rain: loss is potential loss", ctx.Implies(p == 0, ctx.close(tl, l.val)))


def h_public(ctx, awc, at, years, prefix, plim=30.0, elim=20.0, two_d=False):
    """the coefficients of a short record against the reference; January keeps everything at rest so that no spell decision depends on the symbols"""
    pal = ctx.mod("climate_indices.palmer")
    n = years * 12
    ps, es = [], []
    for i in range(n):
        p, e = prefix[i % 12]
        ps.append(p + (0.25 * (i // 12) if i % 12 not in (0, 11) else 0.0))
        es.append(e)
    for i, what in at:
        if "p" in what:
            ps[i] = ctx.real("p%d" % i, 0.0, plim)
        if "e" in what:
            es[i] = ctx.real("e%d" % i, 0.0, elim)
    rows = W.balance(ctx, ps, es, awc)
    want = W.coefficients(ctx, rows, (0, years - 1))
    a, b = ctx.arr(ps), ctx.arr(es)
    if two_d:
        a, b = a.reshape(years, 12), b.reshape(years, 12)
    o = ctx.call(pal.pdsi, a, b, awc, 1990, 1990, 1990 + years - 1)
    ctx.check("pdsi returns", o.ok())
    if not o.ok():
        return
    got = o.val[4]
    for k in ("alpha", "beta", "gamma", "delta"):
        g = ctx.items(got[k])
        for m in range(12):
            if k == "alpha":
                ctx.check("share of potential evapotranspiration at most 1", g[m] <= 1.0 + 1e-6, at=str(m))
            ctx.check(k + " of the bucket", ctx.close(g[m], want[k][m]), at="month %d" % m)


REST = (0.0, 0.0)
WET = (9.0, 0.0)
MILD = [REST, (2.0, 0.5), (3.0, 1.0), (3.5, 2.0), (1.0, 3.0), (0.5, 5.0), (0.2, 6.0), (4.0, 2.5), (3.0, 1.5), (2.0, 1.0), (1.5, 0.5), (60.0, 0.0)]
DRY = [REST, (0.1, 1.0), (0.0, 3.0), (0.3, 4.0), (0.0, 6.0), (0.0, 7.0), (0.2, 8.0), (0.0, 6.0), (0.5, 4.0), (0.1, 3.0), (0.2, 1.0), (60.0, 0.0)]


def CASES(tier):
    big = tier != "quick"
    out = []

    def add(name, h, **p):
        out.append(dict(name=name, fn=h, params=p))
    for dry in (True, False):
        for thin in (True, False):
            add("month %s %s" % ("dry" if dry else "wet", "thin" if thin else "deep"), "h_month", dry=dry, thin=thin)
    for awc in (0.4, 1.0, 1.5, 5.0, 10.0):
        for nm, pre in (("mild", MILD), ("dry", DRY)):
            hard = awc > 4 and not big
            add("public awc=%s %s, one year" % (awc, nm), "h_public", awc=awc, at=((10, "pe") if hard else (3, "pe"),), years=1, prefix=pre)
            for w in ("p", "e"):
                add("public awc=%s %s, early %s" % (awc, nm, w), "h_public", awc=awc, at=((9 if hard else 2, w),), years=1, prefix=pre)
            if big or awc == 5.0:
                add("public awc=%s %s, two years" % (awc, nm), "h_public", awc=awc, at=((9, "p"), (21, "p")), years=2, prefix=pre, two_d=True)
                add("public awc=%s %s, two months" % (awc, nm), "h_public", awc=awc, at=((9, "e"), (10, "p")), years=1, prefix=pre)
            if big:
                add("public awc=%s %s, late" % (awc, nm), "h_public", awc=awc, at=((8, "pe"), (9, "pe")), years=1, prefix=pre)
                add("public awc=%s %s, two years, all" % (awc, nm), "h_public", awc=awc, at=((8, "pe"), (20, "pe")), years=2, prefix=pre, two_d=True)
    if big:
        for awc in (1.5, 5.0):
            add("public awc=%s three months" % awc, "h_public", awc=awc, at=((8, "pe"), (9, "e"), (10, "p")), years=1, prefix=DRY)
    return out
