"""Saved fitting parameters, loaded again, reproduce the SPI."""
from _cli import *
from P20 import Run

EXTRA_MODS = cli_mods
BOUNDS = ("the SPI tool run to save its fitting parameters and, in another process, run with them on the same or other values and with other calibration years; grids of 1 to 6 locations, either dimension "
          "order, locations without data; 1 to 3 scales (also only some of those saved); 36 to 48 months or 2 years of days with one or two symbolic values, missing included.")
OUTSIDE = "xarray and NetCDF are modelled (the replay uses the real ones); divisions and time series (the SPI tool does not handle them); rounding when parameters are written."
OPTS = dict(max_paths=4000)
SECONDS = {"quick": 200, "thorough": 820}

VARS = ("alpha", "beta", "prob_zero", "loc", "scale", "skew")


def tool(ctx, x, p, base, scales, cal, *more):
    T = ctx.cli("__spi__", 3, "reverse", False)
    ctx.argv(["spi", "--periodicity", x.kind, "--scales"] + [str(s) for s in scales] + ["--calibration_start_year", str(cal[0]), "--calibration_end_year", str(cal[1]),
             "--netcdf_precip", p, "--var_name_precip", "prcp", "--output_file_base", ctx.path(base), "--multiprocessing", "all"] + list(more))
    return ctx.call(T.main)


def h_params(ctx, run, scales, again, cal, other=None, missing=None, same=False):
    """run: the data the parameters are of; other: those of the second computation (default: the same)"""
    x = Run(ctx, "a", missing=missing, **run)
    y = Run(ctx, "b", missing=missing, **dict(run, **other)) if other is not None else x
    I, C = x.I, x.C
    unit = {"monthly": "month", "daily": "day"}[x.kind]
    fits, want = {}, {}
    for sc in scales:
        for loc in x.ls:
            v = ctx.arr(x.data["prcp"][loc])
            if x.kind == "daily":
                v = x.U.transform_to_366day(v, x.start, 2)
            v = C.scale_values(v, sc, x.periodicity)
            c0, c1 = x.cal
            fs = dict(zip(VARS, list(C.gamma_parameters(ctx.copy(v), x.start, c0, c1, x.periodicity)) + list(C.pearson_parameters(ctx.copy(v), x.start, c0, c1, x.periodicity))))
            for k, a in fs.items():
                fits.setdefault("%s_%d_%s" % (k, sc, unit), {})[loc] = ctx.copy(ctx.arr(ctx.items(a)))
            if sc in again:
                for d in I.Distribution:
                    ks = ("alpha", "beta") if d.value == "gamma" else VARS[2:]
                    want.setdefault("spi_%s_%d_%s" % (d.value, sc, unit), {})[loc] = y.api(
                        lambda z: I.spi(z, sc, d, y.start, cal[0], cal[1], y.periodicity, fitting_params={k: ctx.copy(fs[k]) for k in ks}), y.data["prcp"][loc])
    p = x.files()["netcdf_precip"]
    z = None if same is not True else Run(ctx, "z", **dict(run, sym={"prcp": (7,), "pet": ()}, zeros=(3, 8, 14)))
    between = None if z is None else z.files()["netcdf_precip"]
    q = p if y is x else y.files()["netcdf_precip"]
    r = tool(ctx, x, p, "outa", scales, x.cal, "--save_params", ctx.path("fit.nc"))
    ctx.check("saving ends without an error", r.ok())
    f = ctx.nc_read(ctx.path("fit.nc"))
    ctx.check("parameters saved", f is not None)
    if f is None:
        return
    ds = {"lat": 0, "lon": 1}
    for k, w in fits.items():
        ctx.check(k + " saved", k in f and f[k][0] == ("lat", "lon", unit))
        if k in f and f[k][0] == ("lat", "lon", unit):
            for loc, a in w.items():
                ctx.same_array("%s of location %s" % (k, loc), f[k][1][loc], a)
    first = {}
    for var in want:
        g = ctx.nc_read(ctx.path("outa_%s.nc" % var))
        if y is x:
            ctx.check(var + " written", g is not None and var in g)
        first[var] = None if g is None or var not in g else {loc: ctx.copy(at(g[var][0], g[var][1], loc)) for loc in x.ls}
    if between is not None:
        # other data computed in the same process in between
        r = tool(ctx, z, between, "outz", scales, x.cal)
        ctx.check("a computation in between ends without an error", r.ok())
    if not same:
        ctx.fresh()
    r = tool(ctx, y, q, "outb", again, cal, "--load_params", ctx.path("fit.nc"))
    ctx.check("loading ends without an error", r.ok())
    for var, w in want.items():
        compare(ctx, "loaded " + var, "outb_%s.nc" % var, var, w, y.layout, y.shape, y.t, other=y.coords)
        if y is x and first[var] is not None:
            compare(ctx, "as before " + var, "outb_%s.nc" % var, var, first[var], y.layout, y.shape, y.t, other=y.coords)


def h_loads(ctx, run, others, scales, cal):
    """in one process: parameters of one file loaded, then those of others of the same grid"""
    xs = [Run(ctx, "abc"[k], **dict(run, **o)) for k, o in enumerate([{}] + others)]
    T = xs[0]
    ps, first = [], []
    for k, x in enumerate(xs):
        ps.append(x.files()["netcdf_precip"])
    for k, x in enumerate(xs):
        r = tool(ctx, x, ps[k], "first%d" % k, scales, x.cal, "--save_params", ctx.path("fit%d.nc" % k))
        ctx.check("saving ends without an error", r.ok())
        ctx.fresh()
        d = {}
        for sc in scales:
            for t in T.I.Distribution:
                var = "spi_%s_%d_%s" % (t.value, sc, {"monthly": "month", "daily": "day"}[x.kind])
                g = ctx.nc_read(ctx.path("first%d_%s.nc" % (k, var)))
                ctx.check(var + " written", g is not None and var in g)
                if g is not None and var in g:
                    d[var] = {loc: ctx.copy(at(g[var][0], g[var][1], loc)) for loc in x.ls}
        first.append(d)
    for k, x in enumerate(xs):
        r = tool(ctx, x, ps[k], "second%d" % k, scales, cal, "--load_params", ctx.path("fit%d.nc" % k))
        ctx.check("loading ends without an error", r.ok())
    for k, x in enumerate(xs):
        for var, w in first[k].items():
            compare(ctx, "as before %s of file %d" % (var, k), "second%d_%s.nc" % (k, var), var, w, x.layout, x.shape, x.t, other=x.coords)


def CASES(tier):
    cs = []
    big = tier == "thorough"

    def add(name, run, scales, again, cal, **k):
        cs.append(dict(name=name, fn="h_params", params=dict(run=run, scales=scales, again=again, cal=cal, **k)))
    g = dict(layout="grid", shape=[1, 2], sym={"prcp": (5,), "pet": ()})
    add("one scale", g, [1], [1], [2000, 2002])
    add("other calibration years", dict(g, n=48, cal=[2000, 2002]), [1], [1], [2002, 2003])
    add("three scales", dict(g, shape=[2, 1], nan=True), [1, 3, 6], [1, 3, 6], [2000, 2001])
    add("other order of scales", g, [3, 1], [1, 3], [2000, 2002])
    add("some of the scales", g, [1, 2, 3], [2], [2000, 2002])
    add("missing location", dict(g, shape=[2, 2], nan=True), [1], [1], [2000, 2002], missing=[0, 1])
    add("time first", dict(g, layout="grid time first", shape=[2, 3]), [2], [2], [2000, 2002], missing=[1, 2])
    add("other values", dict(g, n=48, cal=[2000, 2003]), [1], [1], [2001, 2001], other=dict(n=24, start=2005, sym={"prcp": (3, 17), "pet": ()}))
    add("other values longer", dict(g, n=36), [2], [2], [2005, 2006], other=dict(n=48, start=2005, sym={"prcp": (3, 17), "pet": ()}, nan=True))
    add("rows", dict(g, shape=[4, 1]), [1], [1], [2001, 2002])
    add("in one process", dict(g, n=48, cal=[2000, 2003]), [1], [1], [2001, 2002], same=True)
    fit = dict(g, n=60, cal=[2000, 2004], sym={"prcp": (), "pet": ()}, pick=(17, 0.0, 35.5, 260.25, float("nan")))
    add("5 years", dict(fit, zeros=(6, 12, 30, 31, 32, 48)), [1, 3], [3, 1], [2000, 2004])
    add("5 years other values", dict(fit, zeros=(6, 12, 18, 30, 42, 54)), [1], [1], [2000, 2001],
        other=dict(n=24, start=2005, pick=(5, 0.0, 55.5, float("nan")), zeros=()))
    add("dry location", dict(fit, shape=[3, 1], dry=[1, 0]), [1], [1], [2000, 2004])
    add("dry location other values", dict(g, dry=[0, 1], n=48, cal=[2000, 2003]), [1], [1], [2000, 2003], other=dict(dry=None, n=36))
    add("no data at all", g, [1], [1], [2000, 2002], missing="all")
    add("no data in a calendar month", dict(g, n=36, holes=[3, 15, 27]), [1], [1], [2000, 2002], other=dict(n=24, start=2005, sym={"prcp": (3, 17), "pet": ()}, holes=()))
    add("no data in a calendar month of 5 years", dict(fit, holes=[3 + 12 * k for k in range(5)]), [1], [1], [2000, 2002], other=dict(holes=(), pick=None))
    add("north to south", dict(g, shape=[3, 1], back=True), [1], [1], [2000, 2002])
    cs.append(dict(name="two parameter files in one process", fn="h_loads", params=dict(run=g, others=[dict(start=2001, sym={"prcp": (7,), "pet": ()}, zeros=(3, 8, 14))], scales=[1], cal=[2000, 2003])))
    cs.append(dict(name="two parameter files of 5 years in one process", fn="h_loads", params=dict(run=fit, others=[dict(pick=None, zeros=(3, 8, 17, 18, 24, 55))], scales=[1, 2], cal=[2000, 2004])))
    cs.append(dict(name="two grids in one process", fn="h_loads", params=dict(run=g, others=[dict(shape=[2, 1], n=24)], scales=[1], cal=[2000, 2001])))
    if big:
        add("large", dict(g, shape=[3, 3], n=60, cal=[2001, 2003]), [1, 3, 12], [12, 3, 1], [2000, 2004], missing=[1, 1])
        day = dict(kind="daily", start=1999, n=731, cal=[1999, 2000], layout="grid", shape=[1, 1], sym={"prcp": (365 + 58,), "pet": ()})
        add("daily", day, [1], [1], [1999, 1999])
        add("daily two", day, [2, 7], [7], [1999, 2000])
    return cs
