"""Reference model of Palmer's water balance, coefficients and weighting factors (Palmer 1965; NCEI's pdi.f)."""
NAN = float("nan")


def lossable(ctx, pet, ss, su, cap):
    """potential loss of the two layers"""
    if bool(ss >= pet):
        return pet
    return ctx.min(ss + su, ss + (pet - ss) * su / cap)


def month(ctx, p, pet, ss, su, awc):
    """one month of the bucket: dict of Palmer's quantities"""
    bot = max(awc - 1.0, 0.0)
    cap = bot + 1.0
    r = dict(p=p, pet=pet, sp=ss + su, pr=cap - (ss + su), pl=lossable(ctx, pet, ss, su, cap))
    if bool(p >= pet):
        surplus = p - pet
        room = 1.0 - ss
        if bool(surplus > room):
            rest = surplus - room
            ss2, rs = 1.0, room
            if bool(rest < bot - su):
                ru, ro = rest, 0.0
            else:
                ru, ro = bot - su, rest - (bot - su)
            su2 = su + ru
        else:
            rs, ru, ro = surplus, 0.0, 0.0
            ss2, su2 = ss + surplus, su
        r.update(et=pet, tl=0.0, r=rs + ru, ro=ro)
    else:
        need = pet - p
        if bool(ss >= need):
            sl, ul = need, 0.0
        else:
            sl = ss
            ul = ctx.min(su, (need - ss) * su / awc)
        ss2, su2 = ss - sl, su - ul
        r.update(et=p + sl + ul, tl=sl + ul, r=0.0, ro=0.0)
    return r, ss2, su2


def balance(ctx, ps, es, awc):
    """every month of the record; the soil starts full"""
    ss, su = 1.0, max(awc - 1.0, 0.0)
    out = []
    for p, e in zip(ps, es):
        r, ss, su = month(ctx, p, e, ss, su, awc)
        r["ss2"], r["su2"] = ss, su
        out.append(r)
    return out


def ratio(ctx, a, b, both_zero):
    if bool(b == 0):
        return both_zero if bool(a == 0) else 0.0
    return ctx.div(a, b)


def sums(ctx, rows, name, m, cal):
    return ctx.sum([rows[y * 12 + m][name] for y in range(cal[0], cal[1] + 1)])


def coefficients(ctx, rows, cal, months=range(12)):
    """alpha, beta, gamma, delta of the calendar months from the calibration years cal = (first, last) counted from the first data year"""
    out = {k: [None] * 12 for k in ("alpha", "beta", "gamma", "delta")}
    for m in months:
        s = {k: sums(ctx, rows, k, m, cal) for k in ("p", "pet", "sp", "pr", "pl", "et", "tl", "r", "ro")}
        out["alpha"][m] = ratio(ctx, s["et"], s["pet"], 1.0)
        out["beta"][m] = ratio(ctx, s["r"], s["pr"], 1.0)
        out["gamma"][m] = ratio(ctx, s["ro"], s["sp"], 1.0)
        out["delta"][m] = ratio(ctx, s["tl"], s["pl"], 0.0)
    return out


def departures(ctx, rows, co):
    """precipitation less the climatically appropriate amount, month by month"""
    out = []
    for i, r in enumerate(rows):
        m = i % 12
        out.append(r["p"] - (co["alpha"][m] * r["pet"] + co["beta"][m] * r["pr"] + co["gamma"][m] * r["sp"] - co["delta"][m] * r["pl"]))
    return out


def weights(ctx, rows, d, cal):
    """Palmer's climatic characteristic K of the calendar months"""
    n = cal[1] - cal[0] + 1
    dbar, khat = [], []
    for m in range(12):
        s = {k: sums(ctx, rows, k, m, cal) for k in ("p", "pet", "r", "ro", "tl")}
        t = ctx.div(s["pet"] + s["r"] + s["ro"], s["p"] + s["tl"])
        b = ctx.sum([ctx.abs(d[y * 12 + m]) for y in range(cal[0], cal[1] + 1)]) / n
        dbar.append(b)
        khat.append(1.5 * ctx.log10(ctx.div(t + 2.8, b)) + 0.5)
    w = ctx.sum([b * k for b, k in zip(dbar, khat)])
    return [ctx.div(17.67 * k, w) for k in khat]


def zindex(ctx, ps, es, awc, cal, co=None):
    rows = balance(ctx, ps, es, awc)
    if co is None:
        co = coefficients(ctx, rows, cal)
    d = departures(ctx, rows, co)
    k = weights(ctx, rows, d, cal)
    return [k[i % 12] * x for i, x in enumerate(d)], co, k, rows
