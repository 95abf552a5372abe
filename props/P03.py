"""Reshaping series to whole years and counting days as 366-day years (utils.reshape_*, gregorian_length_as_366day)."""
BOUNDS = ("reshape_to_2d: lengths 1..40 with row lengths 1..13, and 360..370/731..733 with row length 366, values any "
          "reals or missing; 2-D inputs up to 3 rows; reshape_to_divs_years_months: 1..3 divisions, every second "
          "dimension 1..36; gregorian_length_as_366day: length any integer 0..1900, start year any integer 1600..2400.")
OUTSIDE = "longer arrays; masked arrays; integer arrays that need padding."


def h_2d(ctx, n, k):
    u = ctx.mod("climate_indices.utils")
    v = ctx.reals("v", n, nan=True)
    xs = ctx.items(v)
    o = ctx.call(u.reshape_to_2d, v, k)
    ctx.check("reshape_to_2d returns", o.ok())
    if not o.ok():
        return
    rows = -(-n // k)
    want = xs + [float("nan")] * (rows * k - n)
    ctx.same_array("all values in order, incomplete last row filled with missing", o.val,
                   ctx.arr(want).reshape(rows, k))


def h_2d_pass(ctx, rows, k, other):
    u = ctx.mod("climate_indices.utils")
    v = ctx.reals("v", (rows, k), nan=True)
    xs = ctx.items(v)
    o = ctx.call(u.reshape_to_2d, v, k)
    ctx.check("2-D of the right width returns", o.ok())
    if o.ok():
        ctx.same_array("2-D of the right width unaltered", o.val, ctx.arr(xs).reshape(rows, k))
    o = ctx.call(u.reshape_to_2d, v, other)
    ctx.check("2-D of another width is rejected", o.raised("ValueError"))
    o = ctx.call(u.reshape_to_2d, v.reshape(rows, 1, k), k)
    ctx.check("3-D is rejected", o.raised("ValueError"))


def h_divs(ctx, divs, months):
    u = ctx.mod("climate_indices.utils")
    v = ctx.reals("v", (divs, months), nan=True)
    xs = ctx.items(v)
    o = ctx.call(u.reshape_to_divs_years_months, v)
    if months % 12:
        ctx.check("incomplete years are rejected", o.raised("ValueError"))
        return
    ctx.check("reshape_to_divs_years_months returns", o.ok())
    if o.ok():
        ctx.same_array("division, year, month", o.val, ctx.arr(xs).reshape(divs, months // 12, 12))
    w = v.reshape(divs, months // 12, 12)
    o = ctx.call(u.reshape_to_divs_years_months, w)
    ctx.check("3-D input returns", o.ok())
    if o.ok():
        ctx.same_array("3-D input unaltered", o.val, ctx.arr(xs).reshape(divs, months // 12, 12))
    if months != 12 * 12:
        o = ctx.call(u.reshape_to_divs_years_months, v.reshape(divs, 12, months // 12))
        ctx.check("3-D input without 12 months is rejected", o.raised("ValueError"))
    o = ctx.call(u.reshape_to_divs_years_months, v.reshape(-1))
    ctx.check("1-D input is rejected", o.raised("ValueError"))


def h_len(ctx, lo, hi):
    u = ctx.mod("climate_indices.utils")
    y = ctx.int("year", 1600, 2400)
    n = ctx.int("days", lo, hi)
    o = ctx.call(u.gregorian_length_as_366day, n, y)
    ctx.check("gregorian_length_as_366day returns", o.ok())
    if not o.ok():
        return
    want, used, k = 0, 0, 0
    while True:
        length = ctx.ite(ctx.isleap(y + k), 366, 365)
        if not bool(n - used >= length):
            break
        used = used + length
        want = want + 366
        k += 1
    want = want + (n - used)
    ctx.check("366 per complete year plus the days of the incomplete year", ctx.eq(o.val, want))
    ctx.cover("an incomplete last year", n - used > 0)
    ctx.cover("complete years only", n - used == 0)


def h_len_full(ctx, years):
    u = ctx.mod("climate_indices.utils")
    y = ctx.int("year", 1600, 2400)
    n = 0
    for k in range(years):
        n = n + ctx.ite(ctx.isleap(y + k), 366, 365)
    o = ctx.call(u.gregorian_length_as_366day, n, y)
    ctx.check("complete years count 366 days each", o.ok() and ctx.eq(o.val, 366 * years))


def CASES(tier):
    out = []
    big = tier != "quick"
    for k in range(1, 14):
        for n in sorted(set([1, 2, k - 1, k, k + 1, 2 * k - 1, 2 * k, 2 * k + 1, 3 * k] + (list(range(1, 41)) if big else [])) - {0}):
            out.append(dict(name="2d n=%d k=%d" % (n, k), fn="h_2d", params=dict(n=n, k=k)))
    for n in (365, 366, 367, 732) + ((731, 733, 1098) if big else ()):
        out.append(dict(name="2d n=%d k=366" % n, fn="h_2d", params=dict(n=n, k=366)))
    for r, k, q in [(1, 12, 6), (2, 12, 24), (3, 12, 13), (2, 5, 2), (1, 1, 3), (1, 366, 365), (1, 12, 1)]:
        out.append(dict(name="2d pass %dx%d not %d" % (r, k, q), fn="h_2d_pass", params=dict(rows=r, k=k, other=q)))
    for d in (1, 2, 3):
        for m in (range(1, 37) if big else (1, 9, 11, 12, 13, 24, 36)):
            out.append(dict(name="divs %d x %d" % (d, m), fn="h_divs", params=dict(divs=d, months=m)))
    for lo, hi in [(0, 366), (365, 800), (800, 1400), (1400, 1900)]:
        out.append(dict(name="366-day length %d..%d" % (lo, hi), fn="h_len", params=dict(lo=lo, hi=hi)))
    for y in (1, 2, 3, 4, 5) + ((8, 9) if big else ()):
        out.append(dict(name="366-day length of %d years" % y, fn="h_len_full", params=dict(years=y)))
    return out
