"""Command line arguments that make no sense are rejected."""
from _cli import *

EXTRA_MODS = cli_mods
BOUNDS = ("process_climate_indices with each index and each kind of input, its arguments made incomplete or contradictory in one of some 25 ways (files, variable names, dimensions, coordinates, scales); "
          "coordinates of the second file any that are off by the spacing of the grid or more in a symbolic place (1 to 3 rows and columns), division identifiers any other number, times of another year, month or length; "
          "scales any numbers with a negative one in a symbolic place; the SPI tool's scales, files, variable names and parameter files (saved over an existing file, missing, without the scale or the period); "
          "complete arguments of each index and input, with coordinates of the second file off by less than the tolerance, are accepted.")
OUTSIDE = ("argparse itself; xarray and NetCDF are modelled (the replay uses the real ones); several mistakes at once; existing directories, unreadable files.")
OPTS = dict(max_paths=4000)
SECONDS = {"quick": 200, "thorough": 820}

T = ("monthly", 2000, 24)


class Base:
    """complete arguments of an index"""

    def __init__(self, ctx, index, layout, shape, second="pet", uneven=None):
        self.ctx, self.index, self.layout, self.shape, self.second = ctx, index, layout, tuple(shape), second
        # uneven: one coordinate much more widely spaced than the other
        self.base = coords(layout, self.shape, T)
        if uneven:
            wide, step = [[10.0 + 25.0 * i for i in range(9)], [-70.0 + 40.0 * i for i in range(9)]][uneven == "lon"], 0.5
            other = "lon" if uneven == "lat" else "lat"
            self.base[uneven] = wide[:len(self.base[uneven])]
            self.base[other] = [20.0 + step * i for i in range(len(self.base[other]))]
        vs = []
        if index != "pet":
            vs.append("prcp")
        if index in ("spei", "scaled", "all", "palmers"):
            vs.append(second)
        if index == "pet":
            vs.append("temp")
        self.vars = vs
        self.layouts = {v: layout for v in vs}
        self.t = {v: T for v in vs}
        self.coords = {v: {k: list(x) for k, x in self.base.items() if k in ("lat", "lon")} for v in vs}
        self.shapes = {v: self.shape for v in vs}
        self.awc = index in ("all", "palmers")
        self.awc_coords = {}
        self.edit = {}

    def args(self):
        ctx = self.ctx
        C = ctx.mod("climate_indices.compute")
        a = dict(index=self.index, periodicity=C.Periodicity.monthly, scales=None if self.index in ("pet", "palmers") else [1, 3], calibration_end_year=2001)
        units = {"prcp": "mm", "pet": "mm", "temp": "celsius"}
        names = {"prcp": "precip", "pet": "pet", "temp": "temp"}
        for v in self.vars:
            layout, shape = self.layouts[v], self.shapes[v]
            n = self.t[v][2]
            data = {loc: series(ctx, v, c, n) for c, loc in enumerate(cells(layout, shape))}
            p = write(ctx, v + ".nc", layout, shape, self.t[v], {v: (data, units[v])}, **self.coords[v])
            a["netcdf_" + names[v]], a["var_name_" + names[v]] = p, v
        if self.awc:
            ls = cells(self.layout, self.shape)
            if self.layout.startswith("grid"):
                w = (("lat", "lon"), ctx.arr([[5.0] * self.shape[1]] * self.shape[0]), {})
            else:
                w = (("division",), ctx.arr([5.0] * self.shape[0]), {})
            c = {k: v for k, v in self.base.items() if k != "time"}
            c.update(self.awc_coords)
            a["netcdf_awc"], a["var_name_awc"] = ctx.nc_write("awc.nc", c, {"awc": w}), "awc"
        return a


def off(ctx, xs, name):
    """coordinates of which one is off by the spacing or more"""
    xs = list(xs)
    k = ctx.choice(name + " place", list(range(len(xs))))
    step = min([abs(b - a) for a, b in zip(xs, xs[1:])] or [1.0])
    d = ctx.real(name + " off", -200.0, 200.0)
    ctx.assume(ctx.Or(d >= step, d <= -step))
    xs[k] = xs[k] + d
    return xs


def mutate(ctx, b, what):
    """one mistake; None: cannot be made with these arguments"""
    second = [v for v in b.vars if v != "prcp"] if "prcp" in b.vars else []
    grid = b.layout.startswith("grid")
    div = b.layout.startswith("div")
    main = b.vars[0]
    names = {"prcp": "precip", "pet": "pet", "temp": "temp"}
    e = {}
    if what.startswith("second"):
        if not second:
            return None
        v = second[0]
        w = what[7:]
        if w in ("lat", "lon"):
            if not grid:
                return None
            b.coords[v][w] = off(ctx, b.base[w], w)
        elif w == "division":
            if not div:
                return None
            ids = [101 + i for i in range(b.shape[0])]
            k = ctx.choice("place", list(range(len(ids))))
            d = ctx.choice("other", [-100, -1, 1, 2, 1000])
            ids[k] += d
            b.coords[v]["division"] = ids
        elif w == "order of divisions":
            if not div or b.shape[0] < 2:
                return None
            b.coords[v]["division"] = [101 + i for i in range(b.shape[0])][::-1]
        elif w == "times":
            b.t[v] = ctx.choice("times", [("monthly", 2001, 24), ("monthly", 1900, 24), ("monthly", 2000, 36), ("monthly", 2000, 12), ("daily", 2000, 24)])
        elif w == "layout":
            b.coords[v] = {}
            b.layouts[v], b.shapes[v] = ctx.choice("layouts", [x for x in (("grid", (2, 2)), ("divisions", (2,)), ("timeseries", ())) if x[0] != b.layout.replace(" time first", "")])
        elif w == "file":
            e["netcdf_" + names[v]] = None
        elif w == "variable":
            e["var_name_" + names[v]] = None
        elif w == "variable not in file":
            e["var_name_" + names[v]] = "other"
        elif w == "both":
            q = "pet" if v == "temp" else "temp"
            e["netcdf_" + q], e["var_name_" + q] = ctx.path(v + ".nc"), v
        return e
    if what == "file":
        e["netcdf_" + names[main]] = None
    elif what == "variable":
        e["var_name_" + names[main]] = None
    elif what == "variable not in file":
        e["var_name_" + names[main]] = "other"
    elif what == "variable is a coordinate":
        e["var_name_" + names[main]] = "time"
        if b.layout == "timeseries" or True:
            return None                                # ("time",) is a series of times: not claimed
    elif what == "no scales":
        if b.index in ("pet", "palmers"):
            return None
        e["scales"] = None
    elif what == "negative scale":
        if b.index in ("pet", "palmers"):
            return None
        s = [1, 3, 6]
        s[ctx.choice("place", [0, 1, 2])] = ctx.int("scale", -1000, -1)
        e["scales"] = s
    elif what == "daily pet":
        if b.index != "pet":
            return None
        e["periodicity"] = ctx.mod("climate_indices.compute").Periodicity.daily
    elif what == "time series temperature":
        if b.layout != "timeseries" or "temp" not in b.vars:
            return None
    elif what.startswith("awc"):
        if not b.awc:
            return None
        w = what[4:]
        if w == "file":
            e["netcdf_awc"] = None
        elif w == "variable":
            e["var_name_awc"] = None
        elif w == "variable not in file":
            e["var_name_awc"] = "other"
        elif w in ("lat", "lon"):
            if not grid:
                return None
            b.awc_coords[w] = off(ctx, b.base[w], w)
        elif w == "division":
            if not div:
                return None
            b.awc_coords["division"] = [101 + i for i in range(b.shape[0])][::-1]
    return e


WHAT = (["file", "variable", "variable not in file", "no scales", "negative scale", "daily pet", "time series temperature"] +
        ["second " + w for w in ("lat", "lon", "division", "order of divisions", "times", "layout", "file", "variable", "variable not in file", "both")] +
        ["awc " + w for w in ("file", "variable", "variable not in file", "lat", "lon", "division")])


def h_main(ctx, index, layout, shape, second, what, uneven=None):
    b = Base(ctx, index, layout, shape, second, uneven)
    e = mutate(ctx, b, what)
    a = b.args()
    a.update(e)
    before = ctx.nc_list()
    M = ctx.cli("__main__", 2, "in order", False)
    r = ctx.call(M.process_climate_indices, ns(ctx, **a))
    ctx.check("%s: %s: raises ValueError" % (index, what), r.raised("ValueError"))
    ctx.check("%s: %s: nothing is written" % (index, what), ctx.nc_list() == before)


def h_complete(ctx, index, layout, shape, second, near=False):
    """complete arguments are accepted, also with coordinates off by a twentieth of the spacing"""
    b = Base(ctx, index, layout, shape, second)
    if near:
        d = "lat" if second == "pet" else "lon"        # the latitude of temperatures is that of PET
        k = ctx.choice("place", list(range(shape[d == "lon"])))
        for v in b.vars[1:]:
            xs = list(coords(layout, shape, T)[d])
            xs[k] = xs[k] + ctx.real("off " + v, -0.06, 0.06)
            b.coords[v][d] = xs
    a = b.args()
    M = ctx.cli("__main__", 2, "in order", False)
    r = ctx.call(M.process_climate_indices, ns(ctx, **a))
    ctx.check("%s: complete arguments are accepted" % index, r.ok())
    ctx.check("%s: something is written" % index, any(f.startswith("out") for f in ctx.nc_list()))


DIMS = [("lon", "lat", "time"), ("time", "lon", "lat"), ("lat", "time", "lon"), ("lat", "lon"), ("lat", "time"), ("time", "lat"), ("x", "y", "time"), ("division",), ("lat",), ("lat", "lon", "level", "time")]


def h_dims(ctx, index, spi=False):
    """dimensions that aren't those of a grid, of divisions, or of a time series"""
    dims = DIMS[ctx.choice("dimensions", list(range(len(DIMS))))]
    size = {"time": 24}
    t = {d: [1.0 + i for i in range(2)] for d in ("lat", "lon", "division", "x", "y", "level")}
    t["time"] = T
    shape = tuple(size.get(d, 2) for d in dims)
    n = 1
    for s in shape:
        n *= s
    v = "temp" if index == "pet" else "prcp"
    vals = [10.0 + (7 * k) % 23 for k in range(n)]
    p = ctx.nc_write("in.nc", {d: t[d] for d in dims}, {v: (dims, ctx.arr(vals).reshape(shape), {"units": "celsius" if v == "temp" else "mm"})})
    before = ctx.nc_list()
    if spi:
        r = run_spi(ctx, p)
    else:
        k = "temp" if index == "pet" else "precip"
        a = {"netcdf_" + k: p, "var_name_" + k: v, "scales": [1]}
        if index in ("spei", "scaled"):
            a.update(netcdf_pet=p, var_name_pet=v)
        M = ctx.cli("__main__", 2, "in order", False)
        r = ctx.call(M.process_climate_indices, ns(ctx, index=index, calibration_end_year=2001, **a))
    ctx.check("other dimensions raise ValueError", r.raised("ValueError"))
    ctx.check("other dimensions: nothing is written", ctx.nc_list() == before)


def run_spi(ctx, p, scales=("1",), var="prcp", more=(), base="out", periodicity="monthly"):
    S = ctx.cli("__spi__", 2, "in order", False)
    ctx.argv(["spi", "--periodicity", periodicity] + (["--scales"] + list(scales) if scales is not None else []) + ["--calibration_start_year", "2000", "--calibration_end_year", "2001"] + (
              ["--netcdf_precip", p] if p is not None else []) + (["--var_name_precip", var] if var is not None else []) + [
              "--output_file_base", ctx.path(base), "--multiprocessing", "single"] + list(more))
    return ctx.call(S.main)


def h_spi(ctx, what):
    data = {(0, 0): series(ctx, "prcp", 0, 24, sym=(3,), lo=1.0)}
    p = write(ctx, "in.nc", "grid", (1, 1), T, {"prcp": (data, "mm")})
    fit, k = ctx.path("fit.nc"), {}
    if what in ("save and load", "save exists", "load other scale", "load other period", "overwrite"):
        r = run_spi(ctx, p, more=["--save_params", fit], base="first")
        ctx.check("the first computation ends without an error", r.ok())
        ctx.fresh()
    old = ctx.nc_read(fit)
    before = ctx.nc_list()
    if what == "no scales":
        k["scales"] = None
    elif what == "negative scale":
        k["scales"] = ctx.choice("scales", [["-1"], ["1", "-3"], ["-12", "1"], ["3", "-1", "6"]])
    elif what == "no file":
        k["p"] = None
    elif what == "no variable":
        k["var"] = None
    elif what == "variable not in file":
        k["var"] = "other"
    elif what == "save and load":
        k["more"] = ["--save_params", ctx.path("fit2.nc"), "--load_params", fit]
    elif what == "save exists":
        k["more"] = ["--save_params", fit]
    elif what == "overwrite":
        k["more"] = ["--save_params", fit, "--overwrite"]
        k["scales"] = ["2"]
    elif what == "load missing":
        k["more"] = ["--load_params", fit]
    elif what == "load other scale":
        k["more"], k["scales"] = ["--load_params", fit], ctx.choice("scales", [["2"], ["1", "2"], ["2", "1"], ["11"], ["3", "6"]])
    elif what == "load other period":
        k["more"], k["periodicity"] = ["--load_params", fit], "daily"
    elif what == "load no scales":
        k["more"], k["scales"] = ["--load_params", fit], None
    k = dict({"p": p}, **k)
    r = run_spi(ctx, **k)
    if what == "overwrite":
        ctx.check("an existing file is overwritten if asked for", r.ok())
        f = ctx.nc_read(fit)
        ctx.check("the new parameters are in the file", f is not None and "alpha_2_month" in f and "skew_2_month" in f)
        return
    ctx.check("%s: raises ValueError" % what, r.raised("ValueError"))
    ctx.check("%s: nothing is written" % what, ctx.nc_list() == before)
    if old is not None:
        new = ctx.nc_read(fit)
        ctx.check("%s: the parameters are left as they were" % what, sorted(new) == sorted(old))
        ctx.same_array("%s: left as they were" % what, new["alpha_1_month"][1], old["alpha_1_month"][1])


def h_spi_kind(ctx, layout):
    """inputs the validation accepts"""
    shape = (2,) if layout.startswith("div") else ()
    data = {loc: series(ctx, "prcp", c, 24, sym=(3,) if c == 0 else (), lo=1.0) for c, loc in enumerate(cells(layout, shape))}
    p = write(ctx, "in.nc", layout, shape, T, {"prcp": (data, "mm")})
    before = ctx.nc_list()
    r = run_spi(ctx, p)
    fine = r.ok() or (r.raised("ValueError") and ctx.nc_list() == before)
    ctx.known("M-spi-tool-kinds", not fine)
    ctx.check("the index is written, or the input rejected with ValueError", fine)


def CASES(tier):
    cs = []
    big = tier == "thorough"
    ok = {"timeseries": ()}
    kinds = [("grid", [2, 2]), ("divisions", [3]), ("timeseries", [])] + ([("grid time first", [3, 2]), ("divisions time first", [2]), ("grid", [1, 3]), ("grid", [3, 3])] if big else [])
    for index in ("spi", "pnp", "spei", "scaled", "pet", "all", "palmers"):
        for layout, shape in kinds:
            for second in (("pet", "temp") if index in ("spei", "scaled", "all", "palmers") else ("",)):
                for what in WHAT:
                    if index in ("all", "palmers") and layout == "timeseries":
                        continue
                    if index not in ("spei", "scaled", "all", "palmers") and what.startswith("second") or index not in ("all", "palmers") and what.startswith("awc"):
                        continue
                    if what == "daily pet" and index != "pet" or what in ("no scales", "negative scale") and index in ("pet", "palmers"):
                        continue
                    ts = layout == "timeseries"
                    if what == "time series temperature" and not (ts and (index == "pet" or second == "temp")):
                        continue
                    if what.endswith(("lat", "lon")) and not layout.startswith("grid") or "division" in what and not layout.startswith("div"):
                        continue
                    if not big and index in ("scaled", "palmers") and what in ("variable", "second times", "second lon", "second variable", "awc variable"):
                        continue
                    cs.append(dict(name="%s %s %s%s: %s" % (index, layout, "x".join(map(str, shape)), " " + second if second else "", what), fn="h_main",
                                   params=dict(index=index, layout=layout, shape=shape, second=second, what=what)))
    for index in ("spei", "scaled", "all", "palmers"):
        for second in ("pet", "temp"):
            for wide, what in (("lat", "lon"), ("lon", "lat"), ("lat", "lat"), ("lon", "lon")):
                if not big and (index in ("scaled", "palmers") or wide == what):
                    continue
                for kind in ["second"] + (["awc"] if index in ("all", "palmers") else []):
                    cs.append(dict(name="%s uneven grid %s: %s %s (wide %s)" % (index, second, kind, what, wide), fn="h_main",
                                   params=dict(index=index, layout="grid", shape=[2, 3], second=second, what=kind + " " + what, uneven=wide)))
    for index in ("spi", "pnp", "spei", "scaled", "pet"):
        for layout, shape in kinds:
            for second in (("pet", "temp") if index in ("spei", "scaled") else ("",)):
                if layout == "timeseries" and (second == "temp" or index == "pet"):
                    continue
                cs.append(dict(name="%s %s %s %s complete" % (index, layout, "x".join(map(str, shape)), second), fn="h_complete", params=dict(index=index, layout=layout, shape=shape, second=second)))
                if second and layout.startswith("grid") and shape[0] > 1:
                    cs.append(dict(name="%s %s %s %s nearly the same coordinates" % (index, layout, "x".join(map(str, shape)), second), fn="h_complete",
                                   params=dict(index=index, layout=layout, shape=shape, second=second, near=True)))
    for index in ("spi", "pnp", "spei", "scaled", "pet"):
        cs.append(dict(name="dimensions " + index, fn="h_dims", params=dict(index=index)))
    cs.append(dict(name="dimensions spi tool", fn="h_dims", params=dict(index="spi", spi=True)))
    for w in ("no scales", "negative scale", "no file", "no variable", "variable not in file", "save and load", "save exists", "overwrite", "load missing", "load other scale",
              "load other period", "load no scales"):
        cs.append(dict(name="spi tool " + w, fn="h_spi", params=dict(what=w)))
    for layout in ("divisions", "divisions time first", "timeseries"):
        cs.append(dict(name="spi tool " + layout, fn="h_spi_kind", params=dict(layout=layout)))
    return cs
