"""Splitting the work over processes never changes or skips a location."""
from _cli import *

EXTRA_MODS = cli_mods
BOUNDS = ("process_climate_indices and the SPI tool on files of a grid (1 to 5 by 1 or 2 locations, thorough up to 8 rows), of 1 to 6 divisions and of one time series; 1 to 6 "
          "(thorough 10) processors, the options all, all_but_one and single; the tasks of the pool finishing in three different orders (thorough: any order of up to four tasks), each in a worker of "
          "its own or all in the same one; PNP, SPEI, PET and SPI, two symbolic values (or more) per location.")
OUTSIDE = ("tasks are atomic: interleavings within two tasks are not modelled (tasks that write disjoint parts of the shared arrays commute); workers that are killed; "
           "multiprocessing, xarray and NetCDF themselves are modelled (in the replay NetCDF files and xarray are the real ones, the pool runs in the process).")
OPTS = dict(max_paths=4000)
SECONDS = {"quick": 200, "thorough": 820}

ORDERS = ["in order", "reverse", "rotated"]


def schedule(ctx, perms):
    order = ctx.choice("order", list(range(24)) if perms else ORDERS)
    return order, bool(ctx.bool("one worker does all"))


def h_main(ctx, index, layout, shape, mode, maxcpu=6, perms=False):
    cpus = ctx.choice("processors", list(range(1, maxcpu + 1)))
    order, same = schedule(ctx, perms)
    t = ("monthly", 2000, 24)
    I = ctx.mod("climate_indices.indices")
    C = ctx.mod("climate_indices.compute")
    monthly = C.Periodicity.monthly
    args = dict(index=index, multiprocessing=mode, calibration_end_year=2000)
    want, vars = {}, {}
    ls = cells(layout, shape)
    if index == "pnp":
        d = {loc: series(ctx, "prcp", c, 24, sym=(0, 12), lo=1.0) for c, loc in enumerate(ls)}
        want = {loc: I.percentage_of_normal(ctx.arr(x), 1, 2000, 2000, 2000, monthly) for loc, x in d.items()}
        vars["prcp"] = (d, "mm")
        out = ("out_pnp_01.nc", "pnp_01")
    elif index == "pet":
        d = {loc: series(ctx, "temp", c, 24, sym=(6,) if c == 1 else (), lo=20.0, hi=35.0) for c, loc in enumerate(ls)}
        want = {loc: I.pet(ctx.arr(x), LATS[loc[0]], 2000) for loc, x in d.items()}
        vars["temp"] = (d, "celsius")
        out = ("out_pet_thornthwaite.nc", "pet_thornthwaite")
    elif index == "spei":
        d = {loc: series(ctx, "prcp", c, 24, sym=(c % 12,) if c < 2 else (), lo=1.0) for c, loc in enumerate(ls)}
        e = {loc: series(ctx, "pet", c, 24) for c, loc in enumerate(ls)}
        want = {loc: I.spei(ctx.arr(d[loc]), ctx.arr(e[loc]), 1, I.Distribution.gamma, monthly, 2000, 2000, 2001) for loc in ls}
        vars["prcp"], vars["pet"] = (d, "mm"), (e, "mm")
        args["calibration_end_year"] = 2001
        out = ("out_spei_gamma_01.nc", "spei_gamma_01")
    p = write(ctx, "in.nc", layout, shape, t, vars)
    for v in vars:
        a = "precip" if v == "prcp" else v
        args["netcdf_" + a], args["var_name_" + a] = p, v
    M = ctx.cli("__main__", cpus, order, same)
    r = ctx.call(M.process_climate_indices, ns(ctx, **args))
    ctx.check("the computation ends without an error", r.ok())
    compare(ctx, index, out[0], out[1], want, layout, shape, t)


def h_spi_tool(ctx, shape, mode, maxcpu=4, perms=False):
    cpus = ctx.choice("processors", list(range(1, maxcpu + 1)))
    order, same = schedule(ctx, perms)
    t = ("monthly", 2000, 24)
    I = ctx.mod("climate_indices.indices")
    C = ctx.mod("climate_indices.compute")
    d = {loc: series(ctx, "prcp", c, 24, sym=(c % 12,) if c < 2 else (), lo=1.0) for c, loc in enumerate(cells("grid", shape))}
    want = {loc: I.spi(ctx.arr(x), 1, I.Distribution.gamma, 2000, 2000, 2001, C.Periodicity.monthly) for loc, x in d.items()}
    p = write(ctx, "in.nc", "grid", shape, t, {"prcp": (d, "mm")})
    T = ctx.cli("__spi__", cpus, order, same)
    ctx.argv(["spi", "--periodicity", "monthly", "--scales", "1", "--calibration_start_year", "2000", "--calibration_end_year", "2001", "--netcdf_precip", p,
              "--var_name_precip", "prcp", "--output_file_base", ctx.path("out"), "--multiprocessing", mode])
    r = ctx.call(T.main)
    ctx.check("the computation ends without an error", r.ok())
    compare(ctx, "spi", "out_spi_gamma_1_month.nc", "spi_gamma_1_month", want, "grid", shape, t)


def CASES(tier):
    cs = []
    big = tier == "thorough"

    def add(index, layout, shape, mode, **k):
        cs.append(dict(name="%s %s %s %s%s" % (index, layout, "x".join(map(str, shape)), mode, " perms" if k.get("perms") else ""), fn="h_main",
                       params=dict(index=index, layout=layout, shape=list(shape), mode=mode, **k)))
    m = 10 if big else 6
    for shape in ((1, 2), (2, 1), (3, 2), (5, 1)) + (((4, 2), (7, 1), (8, 1), (6, 2)) if big else ()):
        add("pnp", "grid", shape, "all", maxcpu=m)
    add("pnp", "grid", (3, 1), "all_but_one", maxcpu=m)
    add("pnp", "grid", (3, 1), "single", maxcpu=2)
    add("pnp", "grid time first", (3, 2), "all", maxcpu=4)
    for n in (1, 2, 4, 6) if not big else (1, 2, 3, 4, 5, 6, 7, 8):
        add("pnp", "divisions", (n,), "all", maxcpu=m)
    add("pnp", "divisions time first", (3,), "all_but_one", maxcpu=5)
    add("pnp", "timeseries", (), "all", maxcpu=m)
    add("pnp", "timeseries", (), "all_but_one", maxcpu=m)
    add("pet", "grid", (3, 2), "all", maxcpu=4)
    add("pet", "divisions", (4,), "all", maxcpu=4)
    add("spei", "grid", (3, 2), "all", maxcpu=4)
    add("spei", "divisions", (4,), "all", maxcpu=4)
    add("spei", "timeseries", (), "all", maxcpu=4)
    if big:
        for shape in ((4, 1), (5, 1), (6, 1)):
            add("pnp", "grid", shape, "all", maxcpu=4, perms=True)
            add("spei", "grid", shape, "all", maxcpu=4, perms=True)
    for shape in ((1, 1), (3, 1), (2, 2)) + (((5, 1), (4, 2)) if big else ()):
        cs.append(dict(name="spi tool %s" % (shape,), fn="h_spi_tool", params=dict(shape=list(shape), mode="all", maxcpu=6 if big else 4)))
    cs.append(dict(name="spi tool all_but_one", fn="h_spi_tool", params=dict(shape=[3, 1], mode="all_but_one")))
    return cs
