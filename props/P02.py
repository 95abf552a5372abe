"""Gregorian days <-> 366-day years (utils.transform_to_366day, utils.transform_to_gregorian)."""
BOUNDS = ("start year any integer 1..9990 except in the multi-year cases (1800..2200); 1 to 3 (thorough 6) consecutive years, every "
          "arrangement of leap and common years; all daily values symbolic reals, each possibly missing (in the 3 "
          "days around Feb 28/29/Mar 1 and year ends; the other days symbolic reals); partial final common year of "
          "60, 61, 100, 300, 364 days.")
OUTSIDE = "more years in one call; masked arrays."


def days(ctx, n, tag="d"):
    """n symbolic days; days near Feb 29 and near year ends may also be missing"""
    out = []
    for i in range(n):
        k = i % 366
        near = k < 4 or 55 <= k <= 64 or k >= 362 or 115 <= k % 183 <= 118
        out.append(ctx.real("%s%d" % (tag, i), -1000.0, 1000.0, nan=near))
    return out


def spec_366(ctx, vals, leaps, total):
    """what the 366-day representation has to be"""
    out, i = [], 0
    n = len(vals)
    get = lambda k: vals[k] if k < n else float("nan")
    for lp in leaps:
        if lp:
            out += [get(i + k) for k in range(366)]
            i += 366
        else:
            out += [get(i + k) for k in range(59)]
            out.append((get(i + 58) + get(i + 59)) / 2)
            out += [get(i + k) for k in range(59, 365)]
            i += 365
    return out


def h_round(ctx, years, lo, hi):
    u = ctx.mod("climate_indices.utils")
    y = ctx.int("year", lo, hi)
    leaps = [bool(ctx.isleap(y + k)) for k in range(years)]
    n = sum(366 if l else 365 for l in leaps)
    vals = days(ctx, n)
    a = ctx.arr(vals)
    before = ctx.copy(a)
    o = ctx.call(u.transform_to_366day, a, y, years)
    ctx.check("transform_to_366day returns for complete years", o.ok())
    if not o.ok():
        return
    ctx.same_array("366-day years: same days, Feb 29 of common years the average of its neighbours", o.val,
                   ctx.arr(spec_366(ctx, vals, leaps, years)))
    b = ctx.call(u.transform_to_gregorian, o.val, y)
    ctx.check("transform_to_gregorian returns", b.ok())
    if b.ok():
        ctx.same_array("round trip gives back the input", b.val, before)
    ctx.check("input untouched", ctx.same_exact(a, before))
    ctx.cover("a leap year", any(leaps))
    ctx.cover("a common year", not all(leaps))


def h_back(ctx, years, lo, hi):
    u = ctx.mod("climate_indices.utils")
    y = ctx.int("year", lo, hi)
    leaps = [bool(ctx.isleap(y + k)) for k in range(years)]
    vals = days(ctx, years * 366)
    a = ctx.arr(vals)
    o = ctx.call(u.transform_to_gregorian, a, y)
    ctx.check("transform_to_gregorian returns", o.ok())
    if not o.ok():
        return
    want = []
    for k, lp in enumerate(leaps):
        row = vals[k * 366:(k + 1) * 366]
        want += row if lp else row[:59] + row[60:]
    ctx.same_array("calendar days in order, day 60 dropped in common years only", o.val, ctx.arr(want))


def h_partial(ctx, full, part, lo, hi):
    u = ctx.mod("climate_indices.utils")
    y = ctx.int("year", lo, hi)
    leaps = [bool(ctx.isleap(y + k)) for k in range(full + 1)]
    vals = days(ctx, sum(366 if l else 365 for l in leaps[:full]) + part)
    ctx.known("J-partial-final-year", leaps[full] or part < 60)
    o = ctx.call(u.transform_to_366day, ctx.arr(vals), y, full + 1)
    ctx.check("transform_to_366day accepts a partial final year", o.ok())
    if o.ok():
        ctx.same_array("partial final year: the days there are, then missing", o.val,
                       ctx.arr(spec_366(ctx, vals, leaps, full + 1)))


def h_reject(ctx, size):
    u = ctx.mod("climate_indices.utils")
    y = ctx.int("year", 1800, 2200)
    vals = [float(i) for i in range(size)]
    o = ctx.call(u.transform_to_gregorian, ctx.arr(vals), y)
    ctx.check("no whole number of 366-day years is rejected", o.raised("ValueError"))
    o = ctx.call(u.transform_to_366day, ctx.arr(vals + vals).reshape(2, size), y, 1)
    ctx.check("2-D input is rejected", o.raised("ValueError"))


def CASES(tier):
    out = [dict(name="round trip, 1 year", fn="h_round", params=dict(years=1, lo=1, hi=9990)),
           dict(name="back, 1 year", fn="h_back", params=dict(years=1, lo=1, hi=9990))]
    for n in (2, 3) if tier == "quick" else (2, 3, 4, 5, 6):
        out.append(dict(name="round trip, %d years" % n, fn="h_round", params=dict(years=n, lo=1800, hi=2200)))
        out.append(dict(name="back, %d years" % n, fn="h_back", params=dict(years=n, lo=1800, hi=2200)))
    for full, part in [(0, 60), (0, 100), (1, 61), (1, 364), (2, 300), (0, 1), (0, 59), (1, 30)]:
        out.append(dict(name="partial final year %d+%d" % (full, part), fn="h_partial",
                        params=dict(full=full, part=part, lo=1800, hi=2200)))
    for size in (365, 367, 731):
        out.append(dict(name="reject %d" % size, fn="h_reject", params=dict(size=size)))
    return out
