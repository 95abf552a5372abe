"""Palmer's spells (Palmer 1965 as in NCEI's pdi.f): incipient and established spells, probability of their end, backtracking."""
import _palmer as W

BOUNDS = ("records of 2 to 6 years with concrete months around 1 to 3 (thorough: 4) symbolic consecutive months of any moisture (Z from about -11 to 45), after near normal months, "
          "in incipient spells, in established wet spells and droughts, in their abatement, after undetermined runs of 2 to 50 months, at the start, inside and at the end of the record, whole and partial final years.")
OUTSIDE = "more symbolic months in a row; months exactly at a probability's pole (ze + V = 0)."
ASSUMPTIONS = ["The run of undetermined months recorded last is reported with its preliminary values and the last month's PMDI, as NCEI's program does (the repository's NOAA fixtures have it so)."]
OPTS = dict(check_ms=15000, max_paths=4000)
SECONDS = dict(quick=240, thorough=820)
CAP = 8.0
CO = dict(alpha=[0.5] * 12, beta=[0.5] * 12, gamma=[1.0] * 12, delta=[0.5] * 12)
K0 = 17.67 / 12


def spells(ctx, zs):
    """PDSI, PHDI, PMDI of a record of Z values"""
    n = len(zs)
    v = prob = x1 = x2 = x3 = 0.0
    X = [None] * n           # month's own severity (preliminary where undetermined)
    st = [None] * n          # (prob, X1, X2, X3) of the month
    pdsi = [None] * n
    run, slot, width = [], {}, 0
    for i, z in enumerate(zs):
        slot[len(run)] = i
        step = z / 3.0
        kind, V = "free", 0.0
        idle = bool(prob == 0) or bool(prob == 100)
        if idle and bool(x3 <= 0.5) and bool(x3 >= -0.5):
            P, X3 = 0.0, 0.0
        else:
            wet = bool(x3 > 0)
            if idle and bool((z >= 0.15) if wet else (z <= -0.15)):
                kind = "goes on"
            else:
                if wet:
                    V = z - 0.15 + (v if bool(v < 0) else 0.0)
                    kind = "goes on" if bool(V >= 0) else "abates"
                else:
                    V = z + 0.15 + (v if bool(v > 0) else 0.0)
                    kind = "goes on" if bool(V <= 0) else "abates"
            if kind == "abates":
                q = -2.691 * x3 + (1.5 if wet else -1.5)
                if not bool(prob == 100):
                    q = q + v
                ctx.assume(ctx.abs(q) > 1e-6)
                P = ctx.div(V, q) * 100
                if bool(P >= 100):
                    P, X3 = 100.0, 0.0
                else:
                    X3 = 0.897 * x3 + step
        if kind == "goes on":
            V, X1, X2, P, X3 = 0.0, 0.0, 0.0, 0.0, 0.897 * x3 + step
            x, by = X3, 3
        else:
            none = bool(X3 == 0)
            X1, X2, x, by = 0.897 * x1 + step, 0.0, X3, 0
            if not bool(X1 > 0):
                X1 = 0.0
            if none and bool(X1 >= 1):
                x, by, X3, X1 = X1, 1, X1, 0.0
            else:
                X2 = 0.897 * x2 + step
                if not bool(X2 < 0):
                    X2 = 0.0
                if none and bool(X2 <= -1):
                    x, by, X3, X2 = X2, 2, X2, 0.0
                elif none and bool(X1 == 0):
                    x, by = X2, 2
                elif none and bool(X2 == 0):
                    x, by = X1, 1
        X[i], st[i] = x, (P, X1, X2, X3)
        if by == 0:
            run.append((i, X1, X2, X3))
            width = len(run)
        else:
            pdsi[i] = x
            side = by
            for j, a, b, c in reversed(run):
                if by == 3:
                    pdsi[j] = c
                else:
                    if bool((a if side == 1 else b) == 0):
                        side = 3 - side
                    pdsi[j] = a if side == 1 else b
            run = []
        v, prob, x1, x2, x3 = V, P, X1, X2, X3
    last = [slot[k] for k in range(width)]
    for j in last:
        pdsi[j] = X[j]
    phdi = [pdsi[i] if bool(st[i][3] == 0) else st[i][3] for i in range(n)]
    pmdi = [mixture(ctx, *st[n - 1 if i in last else i]) for i in range(n)]
    return pdsi, phdi, pmdi


def mixture(ctx, P, X1, X2, X3):
    if bool(X3 == 0):
        return X1 if bool(ctx.abs(X1) > ctx.abs(X2)) else X2
    if bool(P <= 0) or bool(P >= 100):
        return X3
    w = P / 100
    return (1.0 - w) * X3 + w * (X1 if bool(X3 <= 0) else X2)


def h_spells(ctx, pre, k, post, two_d=False, zlim=(-11.0, 40.0)):
    """pre and post: Z values around k symbolic months, after one year of calibration"""
    pal = ctx.mod("climate_indices.palmer")
    zs = [1.4725 if i % 2 else -1.4725 for i in range(12)] + list(pre)
    ps = [CAP + z / K0 for z in zs]
    ps += [ctx.real("p%d" % i, CAP + zlim[0] / K0, CAP + zlim[1] / K0) for i in range(k)]
    ps += [CAP + z / K0 for z in post]
    n = len(ps)
    es = [0.0] * n
    z = W.zindex(ctx, ps, es, CAP, (0, 0), CO)[0]
    want = spells(ctx, z)
    a, b = ctx.arr(ps), ctx.arr(es)
    if two_d:
        a, b = a.reshape(n // 12, 12), b.reshape(n // 12, 12)
    o = ctx.call(pal.pdsi, a, b, CAP, 1990, 1990, 1990, {m: list(v) for m, v in CO.items()})
    ctx.check("pdsi returns", o.ok())
    if not o.ok():
        return
    for name, g, w in zip(("PDSI", "PHDI", "PMDI"), o.val, want):
        g = ctx.items(g)
        ctx.check(name + ": as many values as months", len(g) == n)
        for i in range(n):
            ctx.check(name + " by the rules of spells", ctx.close(g[i], w[i]), at="month %d" % i)


QUIET = [0.3, -0.3] * 3 + [0.1, -0.1]
PRE = {
    "start": [],
    "quiet": QUIET,
    "incipient wet": [0.0] * 4 + [2.4],
    "incipient dry": [0.0] * 4 + [-2.4],
    "wet": [3.0, 2.0, 2.5, 2.0],
    "dry": [-3.0, -2.0, -2.5, -2.0],
    "very wet": [9.0, 8.0, 9.0],
    "very dry": [-9.0, -8.0, -9.0],
    "waning wet": [3.2, -0.2, 0.0],
    "waning dry": [-3.2, 0.2, 0.0],
    "wet abating": [6.0, 5.0, -1.5],
    "dry abating": [-6.0, -5.0, 1.5],
    "wet abating, dry incipient": [7.0, 6.0, -2.0, -1.0, 0.5],
    "dry abating, wet incipient": [-7.0, -6.0, 2.0, 1.0, -0.5],
    "undetermined": [0.1] * 30 + [2.4, -2.0, 0.3],
    "undetermined, both ways": [0.1] * 30 + [2.0, -2.2, 1.6, -1.0, 0.9],
    "ended wet, undetermined": [4.0, -4.5, 1.0],
    "ended dry, undetermined": [-4.0, 4.5, -1.0],
}


def CASES(tier):
    big = tier != "quick"
    out = []

    def add(name, pre, k, post, **o):
        m = (12 + len(pre) + k + len(post)) % 12
        if m and not o.pop("part", False):
            pre = [0.05 if i % 2 else -0.05 for i in range(12 - m)] + list(pre)
        out.append(dict(name=name, fn="h_spells", params=dict(pre=list(pre), k=k, post=list(post), **o)))
    for name, pre in PRE.items():
        add(name + ", end", pre, 2, [])
        add(name + ", then quiet", pre, 2 if not big else 3, [0.2] if not big else [0.2, -0.1, 0.05, 0.0])
        add(name + ", then wet", pre, 2, [3.5, 1.0])
        add(name + ", then dry", pre, 2, [-3.5, -1.0])
        if big:
            add(name + ", three", pre, 3, [-0.5, 0.5])
            add(name + ", partial year", pre, 2, [0.2], part=True)
    long = [2.5, -2.0] + [0.0] * (49 if not big else 70)
    add("long undetermined run", long, 1, [0.0] * 3)
    add("long undetermined run, ends", long, 2, [])
    add("abatement of forty months and more", [30.0, 30.0, -9.0] + [0.15] * 46, 1, [0.1])
    for name in ("dry abating", "undetermined", "wet") if big else ():
        add(name + ", four", PRE[name], 4, [])
    for part in (1, 4, 11):
        for name in ("dry abating", "wet", "undetermined"):
            pre = list(PRE[name])
            t = (part - 1 - len(pre)) % 12
            add("%s, partial year of %d" % (name, part), [0.05] * t + pre, 1, [], part=True)
    add("two-dimensional", PRE["wet abating"], 1, [0.4], two_d=True)
    return out
