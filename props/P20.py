"""The command line tools write each location's own index."""
import calendar

from _cli import *

EXTRA_MODS = cli_mods
BOUNDS = ("process_climate_indices and the SPI tool: SPI, SPEI (PET given, or computed from temperature), PET, PNP and all scaled indices in one run, over grids (up to 2x3 locations, "
          "either dimension order), divisions (up to 4, either order), a single time series; 1 to 3 scales, both distributions, 24 to 48 months or 2 to 3 years of days (also an incomplete last common year; "
          "common and leap years); any values at two or more symbolic places per run (missing included), one location without data; two computations of "
          "different shapes in the same process; two files of different variables; a calibration period of part of the record.")
OUTSIDE = ("xarray and NetCDF are modelled (the replay uses the real ones), so are encodings, chunk sizes and attributes; processes: P19; Palmer indices (finding L-palmers-tool); "
           "more than two or three symbolic values of a location at once; days of an incomplete last leap year (P02's finding J-partial-final-year).")
OPTS = dict(max_paths=4000)
SECONDS = {"quick": 260, "thorough": 820}

OFF = 0.06


class Run:
    """one file of inputs, with what the Python API gives for each location"""

    def __init__(self, ctx, tag, layout, shape, kind="monthly", start=2000, n=36, cal=(2000, 2002), temp=False, missing=None, sym=None, nan=False, split=False, spread=False,
                 aux=False, off=False, pet_layout=None, lat=True, dry=None, zeros=(), back=False, pick=None, holes=()):
        self.ctx, self.layout, self.shape, self.kind, self.start, self.n, self.cal = ctx, layout, tuple(shape), kind, start, n, cal
        self.t = (kind, start, n)
        self.ls = cells(layout, shape)
        self.aux, self.pet_layout, self.off, self.lat = aux, pet_layout, off, lat
        self.C, self.I, self.U = (ctx.mod("climate_indices." + m) for m in ("compute", "indices", "utils"))
        self.periodicity = getattr(self.C.Periodicity, kind)
        self.data = {}
        self.temp = temp
        # back: from north to south and from east to west
        self.coords = {k: v[::-1] for k, v in coords(layout, self.shape, self.t).items() if back and k in ("lat", "lon")}
        self.lats = self.coords.get("lat", LATS)
        for v in ("prcp", "temp" if temp else "pet"):
            d = {}
            for c, loc in enumerate(self.ls):
                if missing == "all" or missing is not None and loc == tuple(missing):
                    d[loc] = [float("nan")] * n
                    continue
                if v == "prcp" and dry is not None and loc == tuple(dry):
                    d[loc] = [0.0] * n
                    continue
                at = (sym or {}).get(v, ())
                at = [k for k in at] if spread or c == 0 else []
                lo, hi = {"prcp": (0.5, 400.0), "pet": (0.0, 250.0), "temp": (15.0, 35.0)}[v]
                d[loc] = series(ctx, v, c, n, sym=at, lo=lo, hi=hi, nan=nan and v != "temp", name=tag + v)
                if v == "prcp" and pick is not None and (spread or c == 0):
                    # one of a few values, for the cases with a fitted Pearson distribution
                    d[loc][pick[0]] = ctx.choice("%spick%d" % (tag, c), list(pick[1:]))
                for k in holes if v == "prcp" else ():
                    d[loc][k] = float("nan")
                for k in zeros if v == "prcp" else ():
                    if k not in at:
                        d[loc][k] = 0.0
            self.data[v] = d
        self.split, self.tag = split, tag

    def files(self):
        a = {}
        names = {"prcp": "precip", "pet": "pet", "temp": "temp"}
        units = {"prcp": "mm", "pet": "mm", "temp": "celsius"}
        groups = [[v] for v in self.data] if self.split else [list(self.data)]
        for g in groups:
            vs = {v: (self.data[v], units[v]) for v in g}
            if self.aux:
                vs["other"] = ({loc: [1.0] * self.n for loc in self.ls}, "mm")
            layout, other = self.layout, dict(self.coords)
            if g[0] != "prcp":
                layout = self.pet_layout or layout
                if self.off:
                    # coordinates that differ, but by much less than the spacing of the grid
                    c = coords(layout, self.shape, self.t)
                    for d in ("lat", "lon"):
                        other[d] = [v + self.ctx.real("%s+%d" % (d, k), -OFF, OFF) for k, v in enumerate(c[d])]
            p = write(self.ctx, self.tag + "-".join(g) + ".nc", layout, self.shape, self.t, vs, with_lat=self.lat, **other)
            for v in g:
                a["netcdf_" + names[v]], a["var_name_" + names[v]] = p, v
        return a

    def api(self, f, *series):
        """the API's index of days is of 366-day years"""
        xs = [self.ctx.arr(s) for s in series]
        if self.kind == "daily":
            years, days = 0, 0
            while days < self.n:
                days += 366 if calendar.isleap(self.start + years) else 365
                years += 1
            xs = [self.U.transform_to_366day(x, self.start, years) for x in xs]
            return self.U.transform_to_gregorian(f(*xs), self.start)[: self.n]
        return f(*xs)

    def pet(self):
        if not self.temp:
            return self.data["pet"]
        return {loc: self.ctx.items(self.I.pet(self.ctx.arr(x), self.lats[loc[0]], self.start)) for loc, x in self.data["temp"].items()}

    def expect(self, index, scales):
        w = {}
        I, c0, c1, s = self.I, self.cal[0], self.cal[1], self.start
        dists = list(I.Distribution)
        pet = self.pet() if index in ("spei", "scaled", "pet") else None
        for sc in scales:
            if index in ("spi", "scaled"):
                for d in dists:
                    w["spi_%s_%02d" % (d.value, sc)] = {loc: self.api(lambda x: I.spi(x, sc, d, s, c0, c1, self.periodicity), self.data["prcp"][loc]) for loc in self.ls}
            if index in ("spei", "scaled"):
                for d in dists:
                    w["spei_%s_%02d" % (d.value, sc)] = {loc: self.api(lambda x, e: I.spei(x, e, sc, d, self.periodicity, s, c0, c1), self.data["prcp"][loc], pet[loc])
                                                        for loc in self.ls}
            if index in ("pnp", "scaled"):
                w["pnp_%02d" % sc] = {loc: self.api(lambda x: I.percentage_of_normal(x, sc, s, c0, c1, self.periodicity), self.data["prcp"][loc]) for loc in self.ls}
        if self.temp and index in ("spei", "scaled", "pet"):
            w["pet_thornthwaite"] = {loc: self.ctx.arr(x) for loc, x in pet.items()}
        return w

    def args(self, index, scales, base):
        return dict(index=index, periodicity=self.periodicity, scales=list(scales) if index != "pet" else None, calibration_start_year=self.cal[0],
                    calibration_end_year=self.cal[1], output_file_base=self.ctx.path(base), **self.files())

    def check(self, want, base):
        for var, w in want.items():
            compare(self.ctx, var, "%s_%s.nc" % (base, var), var, w, self.layout, self.shape, self.t, OFF if self.off else 0.0, self.coords)
        got = sorted(f for f in self.ctx.nc_list() if f.startswith(base + "_"))
        self.ctx.check("no other outputs", got == sorted("%s_%s.nc" % (base, v) for v in want))


def h_main(ctx, index, scales, runs, missing=None):
    rs = []
    for k, r in enumerate(runs):
        x = Run(ctx, "ab"[k], missing=missing, **r)
        a = x.args(index, scales, "out" + "ab"[k])
        rs.append((x, x.expect(index, scales), a))
    M = ctx.cli("__main__", 3, "reverse", False)
    for k, (x, want, a) in enumerate(rs):
        r = ctx.call(M.process_climate_indices, ns(ctx, **a))
        ctx.check("the computation ends without an error", r.ok())
    for k, (x, want, a) in enumerate(rs):
        x.check(want, "out" + "ab"[k])
        if missing not in (None, "all") and index != "pet":
            for var in want:
                f = ctx.nc_read(ctx.path("out%s_%s.nc" % ("ab"[k], var)))
                if f is not None and var in f:
                    for i, v in enumerate(ctx.items(at(f[var][0], f[var][1], tuple(missing)))):
                        ctx.check(var + ": a location without data stays missing", ctx.isnan(v), i)


def h_spi_tool(ctx, scales, run, missing=None, twice=False):
    x = Run(ctx, "a", missing=missing, **run)
    p = x.files()["netcdf_precip"]
    I = x.I
    unit = {"monthly": "month", "daily": "day"}[x.kind]
    want = {}
    for sc in scales:
        for d in I.Distribution:
            want["spi_%s_%d_%s" % (d.value, sc, unit)] = {loc: x.api(lambda v: I.spi(v, sc, d, x.start, x.cal[0], x.cal[1], x.periodicity), x.data["prcp"][loc]) for loc in x.ls}
    T = ctx.cli("__spi__", 3, "reverse", False)
    for k in range(2 if twice else 1):
        base = "out" + "ab"[k]
        ctx.argv(["spi", "--periodicity", x.kind, "--scales"] + [str(s) for s in scales] + [
                  "--calibration_start_year", str(x.cal[0]), "--calibration_end_year", str(x.cal[1]),
                  "--netcdf_precip", p, "--var_name_precip", "prcp", "--output_file_base", ctx.path(base), "--multiprocessing", "all"])
        r = ctx.call(T.main)
        ctx.check("the computation ends without an error", r.ok())
        x.check(want, base)


def h_palmers(ctx):
    """the index is offered, and its arguments are accepted"""
    x = Run(ctx, "a", "divisions", (2,))
    a = x.args("palmers", [1], "outa")
    lat = LATS[:2]
    a["netcdf_awc"] = ctx.nc_write("awc.nc", {"division": [101, 102]}, {"awc": (("division",), ctx.arr([4.5, ctx.real("capacity", 2.0, 10.0)]), {"units": "inches"}),
                                                                       "lat": (("division",), ctx.arr(lat), {})})
    a["var_name_awc"] = "awc"
    M = ctx.cli("__main__", 2, "in order", False)
    r = ctx.call(M.process_climate_indices, ns(ctx, **a))
    ctx.known("L-palmers-tool", r.raised("ValueError") and "Unsupported index: palmers" in str(r.exc))
    ctx.check("the computation of the Palmer indices ends without an error", r.ok())


def CASES(tier):
    cs = []
    big = tier == "thorough"

    def add(name, index, scales, *runs, **k):
        cs.append(dict(name=name, fn="h_main", params=dict(index=index, scales=list(scales), runs=list(runs), **k)))
    one = {"prcp": (5,), "pet": (), "temp": ()}
    two = {"prcp": (0, 17), "pet": (), "temp": ()}
    both = {"prcp": (3,), "pet": (16,), "temp": ()}
    grid = dict(layout="grid", shape=(2, 2), sym=one)
    add("spi grid", "spi", [1, 3], dict(grid, nan=True), missing=(0, 1))
    add("spi grid time first", "spi", [2], dict(grid, layout="grid time first", shape=(2, 3), n=24, cal=(2000, 2001)), missing=(1, 2))
    add("spi grid 4 years", "spi", [1], dict(grid, n=48, start=1998, cal=(1999, 2001), shape=(1, 2)))
    add("spi divisions", "spi", [1, 6], dict(layout="divisions", shape=(3,), sym=one, nan=True), missing=(1,))
    add("spi divisions time first", "spi", [3], dict(layout="divisions time first", shape=(2,), sym=one))
    add("spi timeseries", "spi", [1, 12], dict(layout="timeseries", shape=(), sym=one))
    add("pnp grid", "pnp", [1, 2, 3], dict(grid, sym=two, nan=True, spread=True), missing=(1, 0))
    add("pnp grid time first", "pnp", [3], dict(grid, layout="grid time first", shape=(2, 3), sym=two, cal=(2001, 2002)))
    add("pnp divisions", "pnp", [6], dict(layout="divisions", shape=(4,), sym=two, nan=True, spread=True), missing=(3,))
    add("pnp divisions time first", "pnp", [1, 2], dict(layout="divisions time first", shape=(3,), sym=two, spread=True))
    add("pnp timeseries", "pnp", [2], dict(layout="timeseries", shape=(), sym=two, nan=True))
    add("pet grid", "pet", [], dict(layout="grid", shape=(2, 2), n=24, temp=True, sym={"temp": (6,)}))
    add("pet grid time first", "pet", [], dict(layout="grid time first", shape=(2, 3), n=24, temp=True, sym={"temp": (17,)}))
    add("pet divisions", "pet", [], dict(layout="divisions", shape=(3,), n=24, temp=True, sym={"temp": (6,)}))
    add("pet divisions time first", "pet", [], dict(layout="divisions time first", shape=(3,), n=24, temp=True, sym={"temp": (6,)}))
    add("spei grid", "spei", [1, 3], dict(grid, sym=both, nan=True), missing=(1, 1))
    add("spei grid two files", "spei", [2], dict(grid, sym=both, shape=(1, 2), split=True))
    add("spei grid time first", "spei", [2], dict(grid, layout="grid time first", sym=both, shape=(2, 1)))
    add("spei grid coordinates off", "spei", [1], dict(grid, sym=both, shape=(2, 2), split=True, off=True, n=24, cal=(2000, 2001)))
    add("spei two orders", "spei", [1], dict(grid, sym=both, shape=(2, 3), split=True, pet_layout="grid time first", n=24, cal=(2000, 2001)))
    add("spei two orders too", "spei", [1], dict(grid, layout="grid time first", sym=both, shape=(2, 1), split=True, pet_layout="grid", n=24, cal=(2000, 2001)))
    add("spei divisions", "spei", [1], dict(layout="divisions", shape=(3,), sym=both))
    add("spei divisions time first", "spei", [3], dict(layout="divisions time first", shape=(2,), sym=both))
    add("spei timeseries", "spei", [1, 3], dict(layout="timeseries", shape=(), sym=both))
    add("spei grid temperature", "spei", [1], dict(grid, shape=(2, 1), temp=True, sym={"prcp": (5,), "temp": ()}))
    add("spei grid temperature two files", "spei", [1], dict(grid, shape=(2, 2), n=24, cal=(2000, 2001), temp=True, split=True, sym={"prcp": (5,), "temp": ()}))
    add("spei divisions temperature", "spei", [2], dict(layout="divisions", shape=(2,), temp=True, sym={"prcp": (5,), "temp": ()}))
    add("scaled grid temperature", "scaled", [1, 2], dict(grid, shape=(2, 1), temp=True, sym={"prcp": (5,), "temp": ()}))
    add("scaled divisions", "scaled", [3], dict(layout="divisions", shape=(2,), sym=both))
    add("scaled timeseries", "scaled", [2], dict(layout="timeseries", shape=(), sym=both))
    add("two shapes spi", "spi", [1], dict(grid, n=24, cal=(2000, 2001), shape=(2, 2)), dict(grid, n=36, shape=(1, 2)))
    add("two shapes pnp", "pnp", [2], dict(layout="divisions", shape=(3,), sym=two), dict(layout="timeseries", shape=(), sym=two, n=48))
    add("two shapes pet", "pet", [], dict(layout="grid", shape=(3, 1), n=24, temp=True, sym={"temp": (6,)}), dict(layout="divisions", shape=(2,), n=36, temp=True, sym={"temp": (6,)}))
    add("divisions without latitudes spi", "spi", [1], dict(layout="divisions", shape=(2,), sym=one, lat=False, n=24, cal=(2000, 2001)))
    add("divisions without latitudes spei", "spei", [2], dict(layout="divisions time first", shape=(2,), sym=both, lat=False, n=24, cal=(2000, 2001)))
    add("divisions without latitudes pnp", "pnp", [2], dict(layout="divisions", shape=(2,), sym=two, lat=False, split=True))
    add("other variables", "pnp", [2], dict(grid, sym=two, aux=True))
    fit = dict(layout="grid", shape=(1, 2), n=60, cal=(2000, 2004), pick=(17, 0.0, 35.5, 260.25, float("nan")))
    add("spi grid 5 years", "spi", [1, 3], dict(fit, zeros=(6, 12, 30, 31, 32, 48)), missing=(0, 1))
    add("spi divisions 5 years", "spi", [2], dict(fit, layout="divisions time first", shape=(2,), n=72, cal=(2001, 2005)))
    add("spei grid 5 years", "spei", [1], dict(fit, shape=(2, 1), split=True))
    add("spei grid 5 years temperature", "spei", [1], dict(fit, temp=True, shape=(2, 1), back=True, start=2004, cal=(2004, 2008)))
    add("dry location", "spi", [1, 2], dict(fit, shape=(3, 1), dry=(1, 0)))
    add("dry location pnp", "pnp", [1, 2], dict(fit, shape=(1, 3), dry=(0, 1), sym=two, nan=True))
    add("dry division", "scaled", [1], dict(fit, layout="divisions", shape=(2,), dry=(1,), n=48, cal=(2000, 2003)))
    add("no data at all", "scaled", [2], dict(grid, shape=(2, 1)), missing="all")
    add("no data at all timeseries", "pnp", [2], dict(layout="timeseries", shape=()), missing="all")
    add("north to south", "spi", [1], dict(grid, shape=(3, 2), back=True))
    add("north to south pnp", "pnp", [2], dict(grid, layout="grid time first", shape=(3, 2), back=True, sym=two), missing=(0, 1))
    add("north to south pet", "pet", [], dict(layout="grid", shape=(3, 2), back=True, n=24, temp=True, sym={"temp": (6,)}))
    add("calibration beyond the data", "spi", [1], dict(fit, shape=(1, 1), cal=(1990, 2003)))
    add("a calendar month without data", "spi", [1, 2], dict(fit, shape=(2, 1), holes=[4 + 12 * k for k in range(5)] + [24 + k for k in range(12)]))
    add("a year without data", "spei", [1], dict(fit, shape=(1, 1), n=72, cal=(2001, 2005), holes=list(range(36, 48))))
    day = dict(kind="daily", start=1999, n=365 + 366, cal=(1999, 2000))
    add("pnp daily calibration of the second year", "pnp", [1], dict(day, cal=(2000, 2000), layout="grid", shape=(2, 1), sym={"prcp": (58, 365 + 59)}, nan=True))
    add("pnp daily", "pnp", [3], dict(day, layout="grid", shape=(1, 2), sym={"prcp": (58, 365 + 59)}, nan=True), missing=(0, 1))
    add("pnp daily time first", "pnp", [2], dict(day, layout="grid time first", shape=(2, 1), sym={"prcp": (59, 365 + 60)}))
    add("pnp daily incomplete", "pnp", [2], dict(day, start=2000, cal=(2000, 2001), n=366 + 100, layout="grid", shape=(1, 1), sym={"prcp": (58, 366 + 99)}))
    add("pnp daily incomplete common", "pnp", [1], dict(kind="daily", start=2000, n=366 + 60, cal=(2000, 2001), layout="timeseries", shape=(), sym={"prcp": (58, 366 + 59)}))
    add("pnp daily divisions", "pnp", [2], dict(day, layout="divisions", shape=(2,), sym={"prcp": (58, 365 + 59)}))
    add("spi daily", "spi", [2], dict(day, layout="divisions", shape=(1,), sym={"prcp": (365 + 58,)}))
    if big:
        add("spi daily grid", "spi", [1, 30], dict(day, layout="grid", shape=(1, 2), sym={"prcp": (365 + 59,)}), missing=(0, 1))
        add("spei daily grid", "spei", [3], dict(day, layout="grid", shape=(1, 2), sym={"prcp": (58,), "pet": (365,)}))
        add("spei daily timeseries", "spei", [1], dict(day, layout="timeseries", shape=(), sym={"prcp": (58,), "pet": (365,)}))
        add("spi grid large", "spi", [1, 2, 3, 6, 12, 24], dict(layout="grid", shape=(3, 4), n=60, cal=(2000, 2004), sym=two, nan=True), missing=(2, 2))
        add("scaled grid large", "scaled", [1, 3, 9], dict(layout="grid", shape=(3, 2), n=48, cal=(2001, 2003), sym=both, nan=True), missing=(2, 1))
        add("scaled divisions large", "scaled", [1, 6], dict(layout="divisions time first", shape=(5,), n=48, cal=(2001, 2003), sym=both, nan=True), missing=(4,))
        add("pnp centuries", "pnp", [1], dict(kind="daily", start=1899, n=365 * 3, cal=(1899, 1901), layout="grid", shape=(2, 1), sym={"prcp": (58, 365 + 58)}))

    def spi(name, scales, run, **k):
        cs.append(dict(name="spi tool " + name, fn="h_spi_tool", params=dict(scales=scales, run=run, **k)))
    spi("grid", [1, 3], dict(grid, nan=True), missing=(0, 1))
    spi("grid time first", [2], dict(grid, layout="grid time first", shape=(2, 3), n=24, cal=(2000, 2001)), missing=(1, 2))
    spi("4 years", [1], dict(grid, n=48, start=1998, cal=(1999, 2001), shape=(1, 2)))
    spi("5 years", [1, 3], dict(fit, zeros=(6, 12, 30, 31, 32, 48)), missing=(0, 1))
    spi("6 years", [2], dict(fit, layout="grid time first", shape=(1, 2), n=72, cal=(2001, 2005), back=True))
    spi("dry location", [1], dict(fit, shape=(3, 1), dry=(1, 0)))
    spi("no data at all", [1, 2], dict(grid, shape=(2, 1)), missing="all")
    spi("north to south", [1], dict(grid, shape=(3, 2), back=True))
    spi("12 months", [12], dict(grid, shape=(2, 1)))
    spi("daily", [2], dict(day, layout="grid", shape=(1, 1), sym={"prcp": (365 + 58,)}))
    if big:
        spi("twice", [1], dict(grid), twice=True)
        spi("large", [1, 6, 24], dict(grid, shape=(3, 3), n=60, cal=(2000, 2004), sym=two, nan=True), missing=(2, 2))
        spi("daily grid", [1, 30], dict(day, layout="grid", shape=(1, 2), sym={"prcp": (365 + 59,)}), missing=(0, 1))
    cs.append(dict(name="palmers", fn="h_palmers", params={}))
    return cs
