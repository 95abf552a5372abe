"""Month starts as days since a reference year (utils.compute_days)."""
BOUNDS = ("initial year and reference year any integers 1..9990, initial month any of 1..12, 1 to 26 (thorough 50) months.")
OUTSIDE = "more months in one call; dates after the year 9999."

_DBM = [0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334]


def ordinal(ctx, y, m):
    """days from 1 January of year 1 to the first of month m (1..12) of year y, proleptic Gregorian"""
    p = y - 1
    n = 365 * p + p // 4 - p // 100 + p // 400 + _DBM[m - 1]
    if m > 2:
        n = n + ctx.ite(ctx.isleap(y), 1, 0)
    return n


def h_days(ctx, months, m0, same):
    u = ctx.mod("climate_indices.utils")
    y = ctx.int("year", 1, 9990)
    ref = y if same else ctx.int("reference", 1, 9990)
    o = ctx.call(u.compute_days, y, months, m0, ref)
    ctx.check("compute_days returns", o.ok())
    if not o.ok():
        return
    got = ctx.items(o.val)
    ctx.check("one value per month", len(got) == months)
    if len(got) != months:
        return
    base = ordinal(ctx, ref, 1)
    for i in range(months):
        k = m0 - 1 + i
        want = ordinal(ctx, y + k // 12, k % 12 + 1) - base
        ctx.check("days from 1 January of the reference year to the first of the month", ctx.eq(got[i], want), at=str(i))
    if same:
        ctx.check("counting from its own January starts at zero", ctx.Implies(m0 == 1, ctx.eq(got[0], 0)))
    for i in range(1, months):
        ctx.check("increasing by 28 to 31", ctx.And(got[i] - got[i - 1] >= 28, got[i] - got[i - 1] <= 31), at=str(i))


def h_default(ctx, months):
    u = ctx.mod("climate_indices.utils")
    y = ctx.int("year", 1, 9990)
    o = ctx.call(u.compute_days, y, months)
    ctx.check("compute_days returns", o.ok())
    if o.ok():
        got = ctx.items(o.val)
        for i in range(months):
            ctx.check("defaults: from January, since 1800",
                      ctx.eq(got[i], ordinal(ctx, y + i // 12, i % 12 + 1) - ordinal(ctx, 1800, 1)), at=str(i))


def CASES(tier):
    out = []
    months = 26 if tier == "quick" else 50
    for m0 in range(1, 13):
        out.append(dict(name="from month %d" % m0, fn="h_days", params=dict(months=months, m0=m0, same=False)))
    for n in (1, 2, 13):
        out.append(dict(name="own year, %d months" % n, fn="h_days", params=dict(months=n, m0=1, same=True)))
        out.append(dict(name="defaults, %d months" % n, fn="h_default", params=dict(months=n)))
    return out
