"""Inputs in other units are converted before computing."""
from _cli import *

EXTRA_MODS = cli_mods
BOUNDS = ("process_climate_indices and the SPI tool; every unit name that is accepted (mm, millimeter, millimeters, mm/dy, inch, inches; Celsius, Fahrenheit and Kelvin names), in lower, upper and mixed case, "
          "for precipitation, PET and temperature; SPEI with precipitation and PET in all four combinations of units, PNP, PET, PET computed for SPEI, SPI fitting parameters; grids, divisions and time "
          "series, either dimension order; 24 to 36 months with one to three symbolic values; names of other units.")
OUTSIDE = "xarray and NetCDF are modelled (the replay uses the real ones); files without a units attribute; rounding."
OPTS = dict(max_paths=2000)
SECONDS = {"quick": 200, "thorough": 820}

MM = ["mm", "millimeters", "millimeter", "MM", "Millimeters"]
INCH = ["inches", "inch", "Inches", "INCH"]
C = ["degree_celsius", "degrees_celsius", "celsius", "c", "Celsius", "C", "degrees_Celsius"]
F = ["f", "fahrenheit", "degree_fahrenheit", "degrees_fahrenheit", "F", "Fahrenheit", "degrees_Fahrenheit"]
K = ["k", "kelvin", "K", "Kelvin"]


def to_mm(x, unit):
    return [v * 25.4 for v in x] if unit.lower().startswith("inch") else list(x)


def to_c(x, unit):
    u = unit.lower()
    if u[0] == "k":
        return [v - 273.15 for v in x]
    if u == "f" or "fahr" in u:
        return [(v - 32) * 5 / 9 for v in x]
    return list(x)


def setup(ctx, layout, shape, vars, t, base="out", split=False):
    names = {"prcp": "precip", "pet": "pet", "temp": "temp"}
    a = {}
    for g in ([[v] for v in vars] if split else [list(vars)]):
        p = write(ctx, base + "-".join(g) + ".nc", layout, shape, t, {v: vars[v] for v in g})
        for v in g:
            a["netcdf_" + names[v]], a["var_name_" + names[v]] = p, v
    return a


def run(ctx, args, index, outs, layout, shape, t, base="out"):
    M = ctx.cli("__main__", 2, "in order", False)
    r = ctx.call(M.process_climate_indices, ns(ctx, index=index, output_file_base=ctx.path(base), **args))
    ctx.check("the computation ends without an error", r.ok())
    for var, want in outs.items():
        compare(ctx, var, "%s_%s.nc" % (base, var), var, want, layout, shape, t)


def h_spei(ctx, layout, shape, pu, eu, split=False):
    """precipitation and PET, in any units"""
    n, t = 36, ("monthly", 2000, 36)
    I = ctx.mod("climate_indices.indices")
    per = ctx.mod("climate_indices.compute").Periodicity.monthly
    pf, ef = (1 / 25.4 if u.lower().startswith("inch") else 1.0 for u in (pu, eu))
    d, e, want = {}, {}, {}
    for c, loc in enumerate(cells(layout, shape)):
        d[loc] = [round(v * pf, 4) for v in concrete("prcp", c, n)]
        e[loc] = [round(v * ef, 4) for v in concrete("pet", c, n)]
        if c == 0:
            d[loc][4] = ctx.real("prcp", 0.5 * pf, 400 * pf)
            e[loc][17] = ctx.real("pet", 0.0, 200 * ef)
    a = setup(ctx, layout, shape, {"prcp": (d, pu), "pet": (e, eu)}, t, split=split)
    a.update(scales=[1], calibration_end_year=2002)
    outs = {}
    for dist in I.Distribution:
        outs["spei_%s_01" % dist.value] = {loc: I.spei(ctx.arr(to_mm(d[loc], pu)), ctx.arr(to_mm(e[loc], eu)), 1, dist, per, 2000, 2000, 2002) for loc in d}
    run(ctx, a, "spei", outs, layout, shape, t)


def h_pet(ctx, layout, shape, units, index="pet", pu="mm", off=0.0, lo=20.0, hi=34.0, at=6):
    """off: how much colder or warmer than usual"""
    n, t = 24, ("monthly", 2000, 24)
    I = ctx.mod("climate_indices.indices")
    per = ctx.mod("climate_indices.compute").Periodicity.monthly
    zero = to_c([0.0], units)[0]                    # what zero degrees of this unit are
    slope = to_c([1.0], units)[0] - zero
    conv = lambda v: (v - zero) / slope
    d = {}
    for c, loc in enumerate(cells(layout, shape)):
        d[loc] = [round(conv(v + off), 4) for v in concrete("temp", c, n)]
        if c == 0 and index == "pet":
            d[loc][at] = ctx.real("temp", conv(lo), conv(hi))
    pet = {loc: I.pet(ctx.arr(to_c(x, units)), LATS[loc[0]], 2000) for loc, x in d.items()}
    vars = {"temp": (d, units)}
    outs = {"pet_thornthwaite": pet}
    if index == "spei":
        f = 1 / 25.4 if pu.lower().startswith("inch") else 1.0
        q = {loc: [v * f for v in concrete("prcp", c, n)] for c, loc in enumerate(d)}
        q[cells(layout, shape)[0]][5] = ctx.real("prcp", 0.5 * f, 400 * f)
        vars["prcp"] = (q, pu)
        for dist in I.Distribution:
            outs["spei_%s_01" % dist.value] = {loc: I.spei(ctx.arr(to_mm(q[loc], pu)), ctx.copy(pet[loc]), 1, dist, per, 2000, 2000, 2001) for loc in d}
    a = setup(ctx, layout, shape, vars, t)
    a.update(scales=[1], calibration_end_year=2001)
    run(ctx, a, index, outs, layout, shape, t)


def h_pnp(ctx, layout, shape, units, small=False):
    n, t = 24, ("monthly", 2000, 24)
    I = ctx.mod("climate_indices.indices")
    per = ctx.mod("climate_indices.compute").Periodicity.monthly
    d = {}
    for c, loc in enumerate(cells(layout, shape)):
        d[loc] = series(ctx, "prcp", c, n, sym=(0, 13) if c == 0 else (), lo=0.5)
        if small:
            d[loc] = [v * 0.004 for v in d[loc]]
    want = {loc: I.percentage_of_normal(ctx.arr(to_mm(x, units)), 2, 2000, 2000, 2001, per) for loc, x in d.items()}
    a = setup(ctx, layout, shape, {"prcp": (d, units)}, t)
    a.update(scales=[2], calibration_end_year=2001)
    run(ctx, a, "pnp", {"pnp_02": want}, layout, shape, t)


def spi_args(ctx, p, base, *more):
    return ["spi", "--periodicity", "monthly", "--scales", "1", "--calibration_start_year", "2000", "--calibration_end_year", "2002", "--netcdf_precip", p,
            "--var_name_precip", "prcp", "--output_file_base", ctx.path(base), "--multiprocessing", "single"] + list(more)


def h_spi_tool(ctx, units):
    """index, and the saved parameters, which are those of millimeters"""
    n, t, layout, shape = 36, ("monthly", 2000, 36), "grid", (1, 2)
    I, C = ctx.mod("climate_indices.indices"), ctx.mod("climate_indices.compute")
    per = C.Periodicity.monthly
    d = {}
    for c, loc in enumerate(cells(layout, shape)):
        d[loc] = [round(v / (25.4 if units.lower().startswith("inch") else 1.0), 4) for v in concrete("prcp", c, n)]
    d[0, 0][4] = ctx.real("prcp", 0.5, 15.0)
    mm = {loc: to_mm(x, units) for loc, x in d.items()}
    want = {dist.value: {loc: I.spi(ctx.arr(x), 1, dist, 2000, 2000, 2002, per) for loc, x in mm.items()} for dist in I.Distribution}
    fits = {}
    for loc, x in mm.items():
        v = C.scale_values(ctx.arr(x), 1, per)
        for k, a in zip(("alpha", "beta"), C.gamma_parameters(ctx.copy(v), 2000, 2000, 2002, per)):
            fits.setdefault(k, {})[loc] = a
        for k, a in zip(("prob_zero", "loc", "scale", "skew"), C.pearson_parameters(ctx.copy(v), 2000, 2000, 2002, per)):
            fits.setdefault(k, {})[loc] = a
    p = write(ctx, "in.nc", layout, shape, t, {"prcp": (d, units)})
    T = ctx.cli("__spi__", 2, "in order", False)
    ctx.argv(spi_args(ctx, p, "out", "--save_params", ctx.path("fit.nc")))
    r = ctx.call(T.main)
    ctx.check("the computation ends without an error", r.ok())
    for dist, w in want.items():
        compare(ctx, "spi " + dist, "out_spi_%s_1_month.nc" % dist, "spi_%s_1_month" % dist, w, layout, shape, t)
    f = ctx.nc_read(ctx.path("fit.nc"))
    ctx.check("parameters saved", f is not None)
    if f is None:
        return
    for k, w in fits.items():
        name = k + "_1_month"
        ctx.check(name + " saved", name in f)
        if name in f:
            for loc, a in w.items():
                ctx.same_array("%s of location %s" % (name, loc), at(("lat", "lon", "time"), f[name][1], loc), a)


def h_reject(ctx, index, units):
    """units that are not understood"""
    layout, shape, t = "grid", (1, 1), ("monthly", 2000, 24)
    ok = {"prcp": "mm", "pet": "mm", "temp": "celsius"}
    vars = {v: ({(0, 0): series(ctx, v, 0, 24, sym=(3,) if v == "prcp" else ())}, units.get(v, ok[v])) for v in
            {"pnp": ["prcp"], "spi": ["prcp"], "spei": ["prcp", "pet"], "pet": ["temp"]}[index]}
    a = setup(ctx, layout, shape, vars, t)
    before = ctx.nc_list()
    if index == "spi":
        T = ctx.cli("__spi__", 2, "in order", False)
        ctx.argv(spi_args(ctx, a["netcdf_precip"], "out"))
        r = ctx.call(T.main)
    else:
        a.update(scales=[1], calibration_end_year=2001)
        M = ctx.cli("__main__", 2, "in order", False)
        r = ctx.call(M.process_climate_indices, ns(ctx, index=index, **a))
    ctx.check("unknown units raise ValueError", r.raised("ValueError"))
    ctx.check("and nothing is written", ctx.nc_list() == before)


def CASES(tier):
    cs = []
    big = tier == "thorough"

    def add(name, fn, **k):
        cs.append(dict(name=name, fn=fn, params=k))
    lay = [("grid", [1, 2]), ("divisions", [2]), ("timeseries", []), ("grid time first", [2, 1]), ("divisions time first", [2])]
    for layout, shape in lay:
        for pu, eu in (("inches", "mm"), ("mm", "inches"), ("inch", "inch")):
            add("spei %s %s/%s" % (layout, pu, eu), "h_spei", layout=layout, shape=shape, pu=pu, eu=eu)
    add("spei two files", "h_spei", layout="grid", shape=[1, 2], pu="inches", eu="inches", split=True)
    for k in range(5):
        add("spei names %d" % k, "h_spei", layout="grid", shape=[1, 1], pu=(MM + ["mm/dy"])[k + 1], eu=INCH[k % 4])
        add("spei names other %d" % k, "h_spei", layout="grid", shape=[1, 1], pu=INCH[k % 4], eu=MM[k])
    for layout, shape in lay:
        if layout == "timeseries":
            continue
        for u in ("fahrenheit", "kelvin", "celsius"):
            add("pet %s %s" % (layout, u), "h_pet", layout=layout, shape=shape, units=u)
    for u in C + F + K:
        add("pet names " + u, "h_pet", layout="grid", shape=[1, 1], units=u)
    for u in ("fahrenheit", "kelvin", "celsius"):
        # far from the usual ranges of the unit
        add("pet cold " + u, "h_pet", layout="grid", shape=[1, 2], units=u, off=-16.0, lo=-2.0, hi=4.0)
        add("pet very cold month " + u, "h_pet", layout="grid", shape=[1, 1], units=u, off=-10.0, lo=-130.0, hi=-1.0, at=0)
        add("pet hot " + u, "h_pet", layout="divisions", shape=[2], units=u, off=24.0, lo=40.0, hi=70.0)
    add("spei temperature cold F", "h_pet", layout="grid", shape=[1, 1], units="degrees_fahrenheit", index="spei", off=-16.0)
    add("spei temperature F inches", "h_pet", layout="grid", shape=[1, 1], units="fahrenheit", index="spei", pu="inches")
    add("spei temperature K", "h_pet", layout="divisions", shape=[2], units="kelvin", index="spei")
    for layout, shape in lay:
        add("pnp " + layout, "h_pnp", layout=layout, shape=shape, units="inches")
    for u in ("inches", "mm"):
        add("pnp little precipitation " + u, "h_pnp", layout="grid", shape=[1, 2], units=u, small=True)
    for u in ["mm", "inches", "Inch"] + (["mm/dy", "millimeter"] if big else []):
        add("spi tool " + u, "h_spi_tool", units=u)
    for k, u in enumerate(("cm", "m", "mm/hr", "", "foot", "inch/mo")):
        add("reject pnp " + u, "h_reject", index="pnp", units={"prcp": u})
        add("reject spi " + u, "h_reject", index="spi", units={"prcp": u})
        add("reject spei pet " + u, "h_reject", index="spei", units={"pet": u})
    for u in ("rankine", "", "degrees", "mm"):
        add("reject temp " + u, "h_reject", index="pet", units={"temp": u})
    return cs
