"""The precipitation concentration index of one year of daily values."""
import math
import _spec as S

BOUNDS = ("365 and 366 daily values of which up to 24 (the first and last day of every month) or 12 are symbolic (0..500 mm), the others fixed (zero or a fixed pattern); "
          "wet days in one, two or three months for the limits of the index; a missing value on any one of 24 days; lengths 1 to 20, 355 to 376 and 728 to 734 other than 365 and 366.")
OUTSIDE = "years without any rain; empty arrays; masked arrays."
OPTS = dict(check_ms=15000)
SECONDS = dict(quick=100, thorough=600)

DAYS = [31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31]


def months(n):
    out, at = [], 0
    for m, d in enumerate(DAYS):
        d += 1 if (m == 1 and n == 366) else 0
        out.append((at, at + d))
        at += d
    return out


def index(ctx, xs):
    t = [ctx.sum(xs[a:b]) for a, b in months(len(xs))]
    total = ctx.sum(t)
    ctx.assume(total > 0.01)
    return ctx.div(ctx.sum([x * x for x in t]), total * total) * 100.0


def year(n, dry):
    return [0.0 if dry else float((i * 37) % 11) for i in range(n)]


def h_formula(ctx, n, dry, ends, step=1):
    ind = ctx.mod("climate_indices.indices")
    xs = year(n, dry)
    for m, (a, b) in enumerate(months(n)):
        if m % step == 0:
            for i in ([a, b - 1] if ends == "both" else [a] if ends == "first" else [b - 1] if ends == "last" else [(a + b) // 2]):
                xs[i] = ctx.real("r%d" % i, 0.0, 500.0)
    want = index(ctx, xs)
    o = ctx.call(ind.pci, ctx.arr(xs))
    ctx.check("PCI returns", o.ok())
    if o.ok():
        got = ctx.items(o.val)
        ctx.check("one value", len(got) == 1)
        ctx.check("PCI by the formula", ctx.close(got[0], want))


def h_limits(ctx, n, which):
    """between 100/12 and 100; 100 with all the rain in a single month"""
    ind = ctx.mod("climate_indices.indices")
    xs = year(n, True)
    m = months(n)
    for k in which:
        a, b = m[k]
        xs[a + 3 * (k % 2)] = ctx.real("r%d" % k, 0.0, 500.0)
        xs[b - 1] = ctx.real("s%d" % k, 1.0, 500.0)
    o = ctx.call(ind.pci, ctx.arr(xs))
    ctx.check("PCI returns", o.ok())
    if o.ok():
        got = ctx.items(o.val)[0]
        ctx.check("at most 100", got <= 100.0 + 1e-9)
        ctx.check("at least 100 over the number of wet months", got >= 100.0 / len(which) - 1e-9)


def h_even(ctx, n):
    """the same total in every month: the smallest value, 100/12"""
    ind = ctx.mod("climate_indices.indices")
    xs = year(n, True)
    x = ctx.real("x", 1.0, 500.0)
    for k, (a, b) in enumerate(months(n)):
        xs[a if k % 2 else b - 1] = x
    o = ctx.call(ind.pci, ctx.arr(xs))
    ctx.check("PCI returns", o.ok())
    if o.ok():
        ctx.check("100/12", ctx.close(ctx.items(o.val)[0] * 12.0, 100.0))


def h_length(ctx, lo, hi):
    ind = ctx.mod("climate_indices.indices")
    n = ctx.conc(ctx.int("n", lo, hi))
    x = ctx.real("x", 0.0, 9.0)
    o = ctx.call(ind.pci, ctx.arr([x] + [1.0] * (n - 1)))
    ctx.check("another number of values raises ValueError", o.raised("ValueError"))


def h_missing(ctx, n):
    ind = ctx.mod("climate_indices.indices")
    days = sorted(set([d for a, b in months(n) for d in (a, b - 1)]))
    xs = year(n, False)
    flags = []
    for i in days:
        xs[i] = ctx.real("r%d" % i, 0.0, 50.0, nan=True)
        flags.append(ctx.isnan(xs[i]))
    ctx.assume(ctx.Or(*flags))
    o = ctx.call(ind.pci, ctx.arr(xs))
    ctx.check("missing values raise ValueError", o.raised("ValueError"))


def h_none(ctx, n):
    ind = ctx.mod("climate_indices.indices")
    o = ctx.call(ind.pci, ctx.arr([float("nan")] * n))
    ctx.check("PCI returns", o.ok())
    if o.ok():
        got = ctx.items(o.val)
        ctx.check("all missing", len(got) == n and ctx.And([ctx.isnan(g) for g in got]))


def CASES(tier):
    out = []

    def add(name, h, **p):
        out.append(dict(name=name, fn=h, params=p))
    for n in (365, 366):
        for ends in ("first", "last", "middle"):
            for dry in (True, False):
                add("%d days, %s of month, %s" % (n, ends, "dry" if dry else "wet"), "h_formula", n=n, dry=dry, ends=ends)
        add("%d days, month ends" % n, "h_formula", n=n, dry=False, ends="both")
        for w in ((0,), (1,), (11,), (0, 1), (1, 2), (6, 7), (0, 5, 11)):
            add("%d days, rain in months %s" % (n, w), "h_limits", n=n, which=w)
        add("%d days, even" % n, "h_even", n=n)
        add("%d days, missing" % n, "h_missing", n=n)
        add("%d days, none" % n, "h_none", n=n)
    add("lengths to 20", "h_length", lo=1, hi=20)
    add("lengths near a year, short", "h_length", lo=355, hi=364)
    add("lengths near a year, long", "h_length", lo=367, hi=376)
    add("two years", "h_length", lo=728, hi=734)
    return out
