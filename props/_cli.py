"""Helpers for the command line tools: both sides of a harness (Python 3.9)."""
import argparse
import math


def cli_mods():
    from symx import xrs
    return xrs.extra()


def dims_of(layout):
    return {"grid": ("lat", "lon", "time"), "grid time first": ("time", "lat", "lon"), "divisions": ("division", "time"),
            "divisions time first": ("time", "division"), "timeseries": ("time",)}[layout]


def ns(ctx, **k):
    C = ctx.mod("climate_indices.compute")
    d = dict(index="pnp", periodicity=C.Periodicity.monthly, scales=[1], calibration_start_year=2000,
             calibration_end_year=2000, netcdf_precip=None, var_name_precip=None, netcdf_temp=None, var_name_temp=None,
             netcdf_pet=None, var_name_pet=None, netcdf_awc=None, var_name_awc=None, output_file_base=ctx.path("out"),
             multiprocessing="all", chunksizes="none")
    d.update(k)
    return argparse.Namespace(**d)


def concrete(kind, c, n):
    """some plausible series of location c, all different"""
    out = []
    for k in range(n):
        m = k % 12
        if kind == "prcp":
            v = 20 + 15 * ((k * 7 + c * 5 + (k // 12) * 3) % 11) + c * 2 + 0.25 * m
        elif kind == "pet":
            v = 10 + 6 * abs(6 - m) + 3 * ((k + c) % 5) + 0.5 * c
        else:
            v = 12 + 10 * math.cos((m - 6) * math.pi / 6) + ((k * 3 + c) % 4) * 0.5 + 0.25 * c
        out.append(round(v, 4))
    return out


def series(ctx, kind, c, n, sym=(), lo=0.0, hi=400.0, nan=False, name=None):
    xs = concrete(kind, c, n)
    for k in sym:
        xs[k] = ctx.real("%s%d[%d]" % (name or kind, c, k), lo, hi, nan)
    return xs


def cells(layout, shape):
    if layout.startswith("grid"):
        return [(i, j) for i in range(shape[0]) for j in range(shape[1])]
    if layout.startswith("div"):
        return [(i,) for i in range(shape[0])]
    return [()]


LATS = [33.5, 35.25, 36.5, 41.75, 43.0, 47.5, 50.25, 52.5]


def coords(layout, shape, t):
    c = {"time": t}
    if layout.startswith("grid"):
        c["lat"] = LATS[:shape[0]]
        c["lon"] = [-100.0 + 1.5 * j for j in range(shape[1])]
    elif layout.startswith("div"):
        c["division"] = [101 + i for i in range(shape[0])]
    return c


def pack(ctx, layout, shape, data):
    """{location: series} -> array in the layout's dimension order"""
    n = len(next(iter(data.values())))
    if layout == "grid":
        return ctx.arr([[list(data[i, j]) for j in range(shape[1])] for i in range(shape[0])])
    if layout == "grid time first":
        return ctx.arr([[[data[i, j][k] for j in range(shape[1])] for i in range(shape[0])] for k in range(n)])
    if layout == "divisions":
        return ctx.arr([list(data[i,]) for i in range(shape[0])])
    if layout == "divisions time first":
        return ctx.arr([[data[i,][k] for i in range(shape[0])] for k in range(n)])
    return ctx.arr(list(data[()]))


def write(ctx, name, layout, shape, t, vars, with_lat=True, **other):
    """vars: name -> (data by location, units); other: coordinate -> values instead of the usual"""
    vs = {}
    for k, (data, units) in vars.items():
        vs[k] = (dims_of(layout), pack(ctx, layout, shape, data), {"units": units} if units is not None else {})
    if layout.startswith("div") and with_lat:
        vs["lat"] = (("division",), ctx.arr(LATS[:shape[0]]), {"units": "degrees"})
    return ctx.nc_write(name, dict(coords(layout, shape, t), **other), vs)


def at(dims, arr, loc):
    """the series of one location"""
    names = [d for d in dims if d != "time"]
    order = {"lat": 0, "lon": 1, "division": 0}
    idx = tuple(slice(None) if d == "time" else loc[order[d]] for d in dims)
    return arr[idx]


def compare(ctx, label, fname, var, want, layout, shape, t=None, off=0.0, other=None):
    """the file has every location's expected series, under the input's coordinates"""
    f = ctx.nc_read(ctx.path(fname))
    ctx.check(label + ": written", f is not None and var in f)
    if f is None or var not in f:
        return
    dims, arr = f[var]
    ctx.check(label + ": dimensions", sorted(dims) == sorted(dims_of(layout)))
    if sorted(dims) != sorted(dims_of(layout)):
        return
    for loc, w in want.items():
        ctx.same_array("%s: location %s" % (label, loc), at(dims, arr, loc), w)
    for c, v in dict(coords(layout, shape, t), **(other or {})).items():
        if c == "time":
            from_file = f[c][1] if c in f else None
            ctx.check(label + ": times", from_file is not None and [str(x)[:10] for x in from_file] == [str(x)[:10] for x in _times(v)])
        else:
            got = ctx.items(f[c][1]) if c in f else []
            ctx.check(label + ": " + c, len(got) == len(v) and ctx.And(*[ctx.And(x <= y + off, x >= y - off) for x, y in zip(got, v)]))


def _times(v):
    try:
        from symx.mpstub import times
    except ImportError:
        from mpstub import times
    return times(v)
