"""C16: data products are read as they are: right variable, place, date and unit, for every supported file format."""
import itertools
import math
import os

from mc import env
from mc.meshes import region_cfg, config, region_of, base_cells, build_json, Obs, abs_long
from mc.sources import aggregate, offset

ID = "C16"
LEVEL = "model_checking"
RULE = ("a state is (format, arrangement of files, region, period, missing values) -> values of all cells; a transition is "
        "one build of the real code from files written for it in that format; the oracle keeps the list of written "
        "values with their places and dates")
ASSUMPTIONS = ["files follow the layout the loader documents (variable and coordinate names, order of latitudes, dates in "
               "file names)", "data points lie strictly inside cells, off the antimeridian and the 0/360 seam",
               "the forecast products' last day is left open (given the values of the day before)",
               "values are compared with relative tolerance 1e-5 (files may hold single precision)"]
N = None
DAYS = ["2020-01-%02d" % d for d in range(1, 10)]
REG = {"plain": (0, 16, 8, 32), "south": (-64, -48, -72, -48), "greenwich": (-8, 8, -12, 12), "am": (48, 64, 168, -168),
       "east": (-8, 8, 156, 180), "west": (56, 72, -180, -156)}
AGGS = ("MIN", "MAX", "MEAN", "COUNT")


def bounds(tier):
    return (f"{len(FORMATS)} formats ({', '.join(FORMATS)}) x regions {tuple(REG)} x longitude convention (-180..180, "
            "0..360 where the product has it) x one file / several files x all 16 patterns of missing values in a cell; "
            f"every period of {len(DAYS)} days against every set of dates present "
            f"({'3' if tier == 'quick' else '4'} candidate dates); renaming; units; cloud masks; forecast selection; "
            "polar stereographic grids of both hemispheres; downsampling by factors that divide the cells")


# ------------------------------------------------------------------ the written data
def axis(reg):
    """Lattice of step 4 (2 off the cell edges), one step beyond the region; longitudes in [-180, 180)."""
    lats = [reg.lat_min - 2 + 4.0 * k for k in range(round(reg.H / 4) + 2)]
    lats = [y for y in lats if -90 < y < 90]
    longs = [(reg.long_min - 2 + 4.0 * k + 180) % 360 - 180 for k in range(round(reg.W / 4) + 2)]
    return lats, sorted(longs)


def mask_of(pat, ncell, k):
    """Pattern number of the k-th cell."""
    return (pat + k) % 16


class Field:
    """Values val(t, lat, long) and which are missing; `pats` first missing pattern."""

    def __init__(self, reg, cells, pat, dates, frac=False):
        self.reg, self.cells, self.dates = reg, cells, dates
        self.lats, self.longs = axis(reg)
        self.v = {}
        for ti, t in enumerate(dates):
            for i, y in enumerate(self.lats):
                for j, x in enumerate(self.longs):
                    val = 1.0 + i + 11 * j + 150 * ti
                    if frac:
                        val = ((i * 7 + j * 3 + ti * 5) % 33) / 32
                    if self.missing(y, x, pat):
                        val = N
                    self.v[t, y, x] = val

    def missing(self, y, x, pat):
        if pat is None:
            return False
        for k, c in enumerate(self.cells):
            ox = offset(self.reg, x)
            if c.x < ox < c.x + c.w and c.y < y < c.y + c.h:
                bit = (1 if ox > c.x + c.w / 2 else 0) + (2 if y > c.y + c.h / 2 else 0)
                return bool(mask_of(pat, len(self.cells), k) >> bit & 1)
        return False

    def rows(self, dates=None):
        return [(t, y, x, v) for (t, y, x), v in self.v.items() if dates is None or t in dates]

    def array(self, dates, lats, longs, conv=lambda v: v, lon0=None):
        import numpy as np
        a = np.full((len(dates), len(lats), len(longs)), np.nan)
        for k, t in enumerate(dates):
            for i, y in enumerate(lats):
                for j, x in enumerate(longs):
                    v = self.v[t, y, (x + 180) % 360 - 180]
                    if v is not N:
                        a[k, i, j] = conv(v)
        return a


_n = [0]
_files = []
# how a file stores the same field: a dimension the other way round, or all dimensions in another order
_flip = [None]
FLIPS = {"lat": ("lat", "latitude", "YC"), "long": ("long", "lon", "longitude", "XC"), "time": ("time", "times")}


def stored(ds):
    k = _flip[0]
    if k == "dims":
        return ds.transpose(*reversed(list(ds.sizes)))
    if k:
        return ds.isel({d: slice(None, None, -1) for d in ds.sizes if d in FLIPS[k]})
    return ds


def write(ds, name=None, folder=None):
    _n[0] += 1
    d = os.path.join(env.scratch(), folder or (f"f{_n[0]:08d}", f"v1.0-rc_{_n[0]:08d}.nc d")[_n[0] % 2])
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, name or "data.nc")
    stored(ds).to_netcdf(p, engine="netcdf4")
    _files.append(p)
    return p


def times(dates):
    import numpy as np
    return np.array(dates, dtype="datetime64[ns]")


def lon_axis(f, conv360):
    return sorted(x % 360 for x in f.longs) if conv360 else f.longs


def grid_ds(f, dates, vars_, latname, lonname, tname, conv360, desc, lats=None):
    """vars_: {name: conversion}; dimensions (time,) lat, lon."""
    import xarray as xr
    lats = sorted(lats or f.lats, reverse=desc)
    longs = lon_axis(f, conv360)
    out = {}
    for n, c in vars_.items():
        a = f.array(dates, lats, longs, c)
        out[n] = ((tname, latname, lonname), a) if tname else ((latname, lonname), a[0])
    co = {latname: lats, lonname: longs}
    if tname:
        co[tname] = times(dates)
    return xr.Dataset(out, coords=co)


def halves(lats):
    s = sorted(lats)
    return [s[:len(s) // 2], s[len(s) // 2:]]


def files_plain(vars_, latname, lonname, tname, desc=False, extra=None):
    """One file, or two by latitude, or two by date."""
    def make(f, arr, c360):
        fin = extra or (lambda ds: ds)
        if arr == "lat2":
            return [write(fin(grid_ds(f, f.dates, vars_, latname, lonname, tname, c360, desc, h))) for h in halves(f.lats)]
        if arr == "time2":
            k = (len(f.dates) + 1) // 2
            return [write(fin(grid_ds(f, d, vars_, latname, lonname, tname, c360, desc))) for d in (f.dates[:k], f.dates[k:]) if d]
        return [write(fin(grid_ds(f, f.dates, vars_, latname, lonname, tname, c360, desc)))]
    return make


def files_dated(vars_, prefix, desc=True, extra=None):
    """One file per day, the date in the file name."""
    def make(f, arr, c360):
        fs = [write((extra or (lambda d: d))(grid_ds(f, [t], vars_, "latitude", "longitude", "time", c360, desc)),
                    f"{prefix}{t[:10]}.nc") for t in f.dates]
        return fs[::-1] if arr == "rev" else fs
    return make


def bsose_depth(f, arr, c360):
    import xarray as xr
    longs = lon_axis(f, c360)
    a = f.array(f.dates, f.lats, longs)[0]
    ds = xr.Dataset({"other": (("YC", "XC"), a * 0 + 5)},
                    coords={"YC": f.lats, "XC": longs, "Depth": (("YC", "XC"), a)})
    return [write(ds)]


def modis(f, arr, c360):
    """Missing values alternately as cloud and as NaN."""
    import numpy as np
    import xarray as xr
    a = f.array(f.dates, f.lats, f.longs)[0]
    cloud = np.zeros(a.shape)
    for i in range(a.shape[0]):
        for j in range(a.shape[1]):
            if np.isnan(a[i, j]) and (i + j) % 2:
                cloud[i, j] = 1
                a[i, j] = 77.0
    return [write(xr.Dataset({"iceArea": (("lat", "long"), a), "cloud": (("lat", "long"), cloud)},
                             coords={"lat": f.lats, "long": f.longs}))]


def sose(f, arr, c360):
    ds = grid_ds(f, f.dates[:1], {"uC": lambda v: v, "vC": lambda v: -v / 2}, "lat", "lon", None, c360, False)
    return [write(ds)]


def baltic_currents(f, arr, c360):
    ds = grid_ds(f, f.dates, {"uo": lambda v: v, "vo": lambda v: -v / 2}, "latitude", "longitude", "time", c360, False)
    import xarray as xr
    ds = xr.concat([ds, ds * 0 + 9999.0], "depth").assign_coords(depth=[0.5, 10.0]).transpose("time", "depth", ...)
    return [write(ds)]


def uv(v):
    return v


ident = {"u": lambda v: v}
W = lambda v: (v * 7) % 360


def S(var, make, conv=lambda v: v, name=None, **kw):
    return dict({"vec": False, "names": [name or var], "conv": [conv], "make": make, "dated": False, "timed": False,
                 "c360": (False,), "arr": ("one",), "frac": False}, **kw)


def V(names, make, conv, **kw):
    return dict(S(None, make), vec=True, names=names, conv=conv, **kw)


def wave_u(v):
    return -math.sin(math.radians(W(v)))


def wave_v(v):
    return -math.cos(math.radians(W(v)))


def wind_dir(v):
    return (180 + math.degrees(math.atan2(-v / 2 + 40, v - 60))) % 360


E5 = dict(dated=True, timed=True, c360=(False, True), arr=("one", "rev"))
FORMATS = {
    "gebco": S("elevation", files_plain({"elevation": lambda v: v}, "lat", "lon", None), arr=("one", "lat2")),
    "bsose_depth": S("elevation", bsose_depth, lambda v: -v, c360=(False, True)),
    "bsose_sic": S("SIC", files_plain({"SIarea": lambda v: v}, "YC", "XC", "time"), lambda v: v * 100, c360=(False, True),
                   timed=True, arr=("one", "time2", "lat2"), frac=True),
    "baltic_sic": S("SIC", files_plain({"ice_concentration": lambda v: v, "ice_thickness": lambda v: v * 3}, "lat", "lon",
                                       "time", True), timed=True, arr=("one", "time2")),
    "era5_sig_wave_height": S("swh", files_dated({"swh": lambda v: v, "hmax": lambda v: 2 * v}, "era5_wave_"), **E5),
    "era5_max_wave_height": S("hmax", files_dated({"swh": lambda v: v, "hmax": lambda v: 2 * v}, "era5_wave_"),
                              lambda v: 2 * v, **E5),
    "era5_wave_dir": S("mwd", files_dated({"swh": lambda v: v, "mwd": W}, "era5_wave_"), W, **E5),
    "era5_wave_period": S("mwp", files_dated({"mwp": lambda v: v / 4, "swh": lambda v: v}, "era5_wave_"), lambda v: v / 4, **E5),
    "era5_wind_mag": S("wind_mag", files_dated({"u10": lambda v: 3 * v, "v10": lambda v: -4 * v}, "era5_wind_"),
                       lambda v: 5 * v, **E5),
    "era5_wind_dir": S("wind_dir", files_dated({"u10": lambda v: v - 60, "v10": lambda v: -v / 2 + 40}, "era5_wind_"),
                       wind_dir, **E5),
    "modis": S("SIC", modis),
    "era5_wind": V(["u10", "v10"], files_dated({"u10": lambda v: v, "v10": lambda v: -v / 2}, "era5_wind_"),
                   [lambda v: v, lambda v: -v / 2], **dict(E5, c360=(False,))),
    "era5_wave_direction": V(["uW", "vW"], files_dated({"mwd": W, "swh": lambda v: v}, "era5_wave_"), [wave_u, wave_v], **E5),
    "duacs_currents": V(["uC", "vC"], files_dated({"ugos": lambda v: v, "vgos": lambda v: -v / 2}, "duacs_nrt_", False,
                                                  lambda d: d.assign(crs=0)),
                        [lambda v: v, lambda v: -v / 2], **dict(E5, c360=(False,))),
    "northsea_currents": V(["uC", "vC"], files_plain({"U": lambda v: v, "V": lambda v: -v / 2, "h": lambda v: 1.0}, "lat", "lon",
                                                     "times"), [lambda v: v, lambda v: -v / 2], timed=True, arr=("one", "time2")),
    "baltic_currents": V(["uC", "vC"], baltic_currents, [lambda v: v, lambda v: -v / 2], timed=True, meant=True),
    "sose": V(["uC", "vC"], sose, [lambda v: v, lambda v: -v / 2], c360=(False, True)),
}


# ------------------------------------------------------------------ oracle
def cell_rows(reg, c, rows, start, end):
    out = []
    for t, y, x, v in rows:
        ox = offset(reg, x)
        if v is not N and c.x < ox < c.x + c.w and c.y < y < c.y + c.h and (start is None or start <= t[:10] <= end):
            out.append((t, y, x, v))
    return out


def close(a, b):
    if b is None:
        return isinstance(a, float) and a != a
    return isinstance(a, (int, float)) and not isinstance(a, bool) and abs(a - b) <= 1e-5 * max(1.0, abs(b))


def expected(fmt, reg, c, field, start, end, agg):
    sp = FORMATS[fmt]
    rows = cell_rows(reg, c, field.rows(), start if sp["timed"] else None, end)
    if not sp["timed"]:
        rows = [r for r in rows if r[0] == field.dates[0]]
    if not sp["vec"]:
        return [aggregate(agg, [sp["conv"][0](v) for *_, v in rows])]
    vs = [(sp["conv"][0](v), sp["conv"][1](v)) for *_, v in rows]
    if sp.get("meant"):
        by = {}
        for (t, y, x, v), w in zip(rows, vs):
            by.setdefault((y, x), []).append(w)
        vs = [tuple(math.fsum(w[i] for w in ws) / len(ws) for i in (0, 1)) for ws in by.values()]
    if agg in ("MIN", "MAX"):
        if not vs:
            return [None, None]
        m = (min if agg == "MIN" else max)(vs, key=lambda w: math.hypot(*w))
        return list(m)
    return [aggregate(agg, [w[i] for w in vs]) for i in (0, 1)]


def reg_of(rname, cell=8):
    a, b, c, d = REG[rname]
    return region_cfg(a, b, c, d, cell, cell)


def build_case(ctx, fmt, rname, arr, c360, pat, dates, start, end, extra=None, scale=1.0, names=None, cell=8, flip=None):
    sp = FORMATS[fmt]
    case = {"format": fmt, "region": rname, "files": arr, "lon360": c360, "missing": pat, "dates": dates,
            "period": [start, end], "params": extra or {}, "cell": cell, "stored": flip}
    extra = extra or {}
    with ctx.guard(case, fmt):
        r = dict(reg_of(rname, cell), start_time=start, end_time=end)
        cfg0 = config(r)
        reg = region_of(cfg0)
        cells = base_cells(cfg0)
        f = Field(reg, base_cells(config(reg_of(rname, 8))), pat, dates, sp["frac"])
        _flip[0] = flip
        try:
            fs = sp["make"](f, arr, c360)
        finally:
            _flip[0] = None
        present = [d for d in dates if start <= d[:10] <= end]
        aggs = AGGS if not (sp["vec"] and fmt == "era5_wave_direction") else ("MEAN", "COUNT")
        srcs = []
        for a in aggs:
            nm = ",".join(f"{n}{a}" for n in sp["names"])
            srcs.append({"loader": fmt, "params": dict({"files": list(fs), "data_name": nm, "aggregate_type": a,
                                                        "value_fill_types": "nan"}, **extra)})
        own = names is not None
        if own:                                     # default name and aggregate
            srcs = [{"loader": fmt, "params": dict({"files": list(fs), "value_fill_types": "nan"}, **extra)}]
            if len(fs) == 1:
                srcs[0]["params"]["file"] = srcs[0]["params"].pop("files")[0]
            aggs = ("MEAN",)
        ctx.step()
        if sp["dated"] and not present:
            try:
                build_json(config(r, srcs, 0, 1))
            except Exception:
                ctx.state((fmt, "refused"))
                ctx.trace({"case": case}, outcome="refused")
                return
            return                                  # an empty mesh is as good
        o = Obs(reg, build_json(config(r, srcs, 0, 1)))
        by = o.by_rect()
        errs = list(o.errors)
        for c in cells:
            for a in aggs:
                want = expected(fmt, reg, c, f, start, end, a)
                keys = list(names) if own else [f"{n}{a}" for n in sp["names"]]
                for k, w in zip(keys, want):
                    got = o.data[by[c]].get(k, "absent")
                    if a == "COUNT":
                        ok = close(got, w) or w == 0 and (close(got, 0.0) or close(got, None))
                    else:
                        ok = close(got, None if w is None else w * scale)
                    if not ok and len(errs) < 4:
                        errs.append(f"cell {tuple(c)} {k}: {got!r}, expected {w if w is None or a == 'COUNT' else w * scale!r}")
        if errs:
            ctx.fail(case, "; ".join(errs[:3]), fmt)
        ctx.state(case)
        ctx.trace({"case": case}, outcome=[sorted((k, round(v, 3)) for k, v in o.data[by[cells[0]]].items() if v == v)])


D2 = [DAYS[2], DAYS[3]]


def cases(fmt, tier):
    """All cases of a format: tuples for build_case."""
    sp = FORMATS[fmt]
    out = []
    lo, hi = DAYS[0], DAYS[-1]
    for r in REG:
        for c in sp["c360"]:
            for a in sp["arr"]:
                for p in (None, 0, 7) if tier == "quick" else (None,) + tuple(range(16)):
                    out.append(dict(rname=r, arr=a, c360=c, pat=p, dates=D2 if sp["timed"] else D2[:1], start=lo, end=hi))
    if sp["timed"]:
        cand = [DAYS[1], DAYS[3], DAYS[6]] if tier == "quick" else [DAYS[1], DAYS[2], DAYS[4], DAYS[6]]
        if fmt.startswith("era5") and not fmt.startswith("era5_m"):
            pass
        for n in range(1, len(cand) + 1):
            for ds in itertools.combinations(cand, n):
                for i, j in itertools.combinations_with_replacement(range(0, 8), 2):
                    if tier == "quick" and not (n == len(cand) or (i + j) % 4 == 0):
                        continue
                    out.append(dict(rname="am" if (i + j + n) % 3 == 0 else "plain", arr=sp["arr"][(i + n) % len(sp["arr"])],
                                    c360=sp["c360"][j % len(sp["c360"])], pat=None, dates=list(ds), start=DAYS[i], end=DAYS[j]))
    for k in ("lat", "long", "dims") + (("time",) if sp["timed"] and not sp["dated"] else ()):
        for r, a, c in itertools.product(("plain", "am") if tier == "quick" else REG, sp["arr"], sp["c360"]):
            out.append(dict(rname=r, arr=a, c360=c, pat=7, dates=D2 if sp["timed"] else D2[:1], start=lo, end=hi, flip=k))
    out.append(dict(rname="plain", arr="one", c360=False, pat=3, dates=D2 if sp["timed"] else D2[:1], start=lo, end=hi,
                    names=sp["names"]))
    out.append(dict(rname="am", arr="one", c360=sp["c360"][-1], pat=5, dates=D2 if sp["timed"] else D2[:1], start=lo, end=hi,
                    names=sp["names"]))
    if fmt == "bsose_sic":
        for u, s in (("percentage", 1.0), ("fraction", 0.01)):
            for r in ("plain", "am"):
                out.append(dict(rname=r, arr="one", c360=True, pat=0, dates=D2, start=lo, end=hi, extra={"units": u}, scale=s))
    return out


# ------------------------------------------------------------------ special formats
def write_tiff(z, xs, ys, proj):
    import rasterio
    from rasterio.transform import from_origin
    dx, dy = xs[1] - xs[0], ys[1] - ys[0]
    p = os.path.join(env.scratch(), "vi.tiff")
    with rasterio.open(p, "w", driver="GTiff", height=len(ys), width=len(xs), count=1, dtype="float32", crs=proj,
                       transform=from_origin(xs[0] - dx / 2, ys[-1] + dy / 2, dx, dy)) as f:
        f.write(z[::-1].astype("float32"), 1)
    return p


def oras5(ctx, rname, layout, dated, tilt):
    """Curvilinear grid: two-dimensional positions, one file, one per component, or one per date."""
    import numpy as np
    import xarray as xr
    case = {"format": "oras5_currents", "region": rname, "layout": layout, "dated": dated, "tilt": tilt}
    with ctx.guard(case, "oras5"):
        r = dict(reg_of(rname), start_time=DAYS[1], end_time=DAYS[4])
        reg = region_of(config(r))
        ny, nx = 9, 11
        dates = [DAYS[0], DAYS[2], DAYS[4], DAYS[5]] if dated else [None]
        la, lo = np.zeros((ny, nx)), np.zeros((ny, nx))
        u, v = np.zeros((len(dates), ny, nx)), np.zeros((len(dates), ny, nx))
        pts = []
        for i in range(ny):
            for j in range(nx):
                la[i, j] = reg.lat_min - 1 + (i + tilt * j / 16) * (reg.H + 2) / ny + 1 / 128
                lo[i, j] = abs_long(reg, -1 + (j - tilt * i / 16) * (reg.W + 2) / nx + 1 / 128)
                for k in range(len(dates)):
                    u[k, i, j], v[k, i, j] = (i * 5 + j * 3 + k * 7) % 13 - 6, (i * 3 + j * 7 + k) % 11 - 4
        pos = {"nav_lat": (("y", "x"), la), "nav_lon": (("y", "x"), lo)}
        dims = ("time_counter", "y", "x") if dated else ("y", "x")
        co = {"time_counter": times(dates)} if dated else {}
        var = {"uo": (dims, u if dated else u[0]), "vo": (dims, v if dated else v[0])}
        if layout == "one":
            fs = [write(xr.Dataset({**var, **pos}, coords=co), "oras5.nc")]
        elif layout == "coords":
            fs = [write(xr.Dataset(var, coords={**co, **pos}), "oras5.nc")]
        elif layout == "components":
            fs = [write(xr.Dataset({q: var[q], **pos}, coords=co), f"oras5_{q}.nc") for q in ("uo", "vo")]
        else:
            ds = xr.Dataset({**var, **pos}, coords=co)
            fs = [write(ds.isel(time_counter=[k]), f"oras5_{k}.nc") for k in range(len(dates))]
        ctx.step()
        o = Obs(reg, build_json(config(r, [{"loader": "oras5_currents", "params": {
            "files": fs, "data_name": "uC,vC", "aggregate_type": "MEAN", "value_fill_types": "nan"}}], 0, 1)))
        by, errs = o.by_rect(), list(o.errors)
        for q, w in (("uC", u), ("vC", v)):
            rows = [(t, la[i, j], lo[i, j], w[k, i, j]) for k, t in enumerate(dates) for i in range(ny) for j in range(nx)]
            for c in base_cells(config(r)):
                want = aggregate("MEAN", [z for *_, z in cell_rows(reg, c, rows, DAYS[1] if dated else None, DAYS[4])])
                got = o.data[by[c]].get(q, "absent")
                if not close(got, want) and len(errs) < 4:
                    errs.append(f"cell {tuple(c)} {q}: {got!r}, expected {want!r}")
        if errs:
            ctx.fail(case, "; ".join(errs[:3]), "oras5")
        ctx.state(case)
        ctx.trace({"case": case}, outcome=len(fs))


def polar(ctx, hemi, dates, start, end, loader):
    """AMSR / visual_iced: polar stereographic grid, cells of the region covered by pole-near data."""
    import numpy as np
    import xarray as xr
    from pyproj import Transformer
    case = {"format": loader, "hemisphere": hemi, "dates": dates, "period": [start, end]}
    tiff = loader == "visual_iced_tiff"
    loader = "visual_iced" if tiff else loader
    with ctx.guard(case, loader):
        proj = "EPSG:3411" if hemi.lower() == "north" else "EPSG:3412"
        sgn = 1 if hemi.lower() == "north" else -1
        r = region_cfg(64 if sgn > 0 else -80, 80 if sgn > 0 else -64, 16, 64, 8, 8, start, end)
        reg = region_of(config(r))
        tr = Transformer.from_crs(proj, "EPSG:4326", always_xy=True)
        xs = np.arange(-3000e3, 3000e3, 230e3) + 1234.5
        ys = np.arange(-3000e3, 3000e3, 190e3) + 777.25
        pts, fs = [], []
        for k, t in enumerate(dates):
            z = np.full((len(ys), len(xs)), np.nan)
            for i, y in enumerate(ys):
                for j, x in enumerate(xs):
                    if (i * 3 + j + k) % 7 == 0:
                        continue
                    v = ((i * 5 + j * 3 + k * 11) % 101) * 1.0
                    if tiff:
                        v = 100 * ((i * 5 + j * 3) % 65) / 64
                    z[i, j] = v / (100 if loader == "visual_iced" else 1)
                    lo, la = tr.transform(x, y)
                    pts.append((t, la, lo, v))
            if tiff:
                fs.append(write_tiff(z, xs, ys, proj))
            elif loader == "amsr":
                ds = xr.Dataset({"z": (("y", "x"), z), "polar_stereographic": 0}, coords={"x": xs, "y": ys})
                fs.append(write(ds, f"asi-AMSR2-{'n' if sgn > 0 else 's'}6250-{t.replace('-', '')}-v5.4.nc"))
            else:
                ds = xr.Dataset({"Band1": (("y", "x"), z), "polar_stereographic": 0}, coords={"x": xs, "y": ys})
                fs.append(write(ds, "vi.nc"))
        par = {"files": fs, "value_fill_types": "nan"}
        if loader == "amsr":
            par["hemisphere"] = hemi
        else:
            par.update({"in_proj": proj, "x_col": "x", "y_col": "y"})
        srcs = [{"loader": loader, "params": dict(par, data_name=f"s{a}", aggregate_type=a)} for a in AGGS]
        ctx.step()
        if loader == "amsr" and not any(start <= d <= end for d in dates):
            try:
                build_json(config(r, srcs, 0, 1))
            except Exception:
                pass
            ctx.trace({"case": case}, outcome="refused")
            return
        o = Obs(reg, build_json(config(r, srcs, 0, 1)))
        by, errs = o.by_rect(), list(o.errors)
        for c in base_cells(config(r)):
            vals = [v for *_, v in cell_rows(reg, c, pts, start if loader == "amsr" else None, end)]
            for a in AGGS:
                w = aggregate(a, vals)
                got = o.data[by[c]].get(f"s{a}", "absent")
                if not (close(got, w) or a == "COUNT" and w == 0 and close(got, None)) and len(errs) < 4:
                    errs.append(f"cell {tuple(c)} {a}: {got!r}, expected {w!r}")
        if errs:
            ctx.fail(case, "; ".join(errs[:3]), loader)
        ctx.state(case)
        ctx.trace({"case": case}, outcome=len(pts))


def icenet(ctx, made, start, end, rname):
    """Forecasts made on the days `made`; leads 1..9; the newest made before the start counts."""
    import numpy as np
    import xarray as xr
    case = {"format": "icenet", "made": made, "period": [start, end], "region": rname}
    with ctx.guard(case, "icenet"):
        r = dict(reg_of(rname), start_time=start, end_time=end)
        reg = region_of(config(r))
        lats, longs = axis(reg)
        day = lambda s: DAYS.index(s)
        before = [m for m in made if m < start]
        fs = []
        leads = list(range(1, 10))
        val = lambda m, tgt, i, j: ((day(m) * 17 + min(tgt, day(end) - 1 if day(end) > day(start) else day(end)) * 5
                                     + i * 3 + j) % 65) / 64
        la2, lo2 = np.meshgrid(lats, longs, indexing="ij")
        for m in made:
            a = np.zeros((1, len(lats), len(longs), len(leads)))
            for i in range(len(lats)):
                for j in range(len(longs)):
                    for k, L in enumerate(leads):
                        a[0, i, j, k] = val(m, day(m) + L, i, j)
            ds = xr.Dataset({"sic_mean": (("time", "yc", "xc", "leadtime"), a),
                             "sic_stddev": (("time", "yc", "xc", "leadtime"), a * 0 + 0.5),
                             "Lambert_Azimuthal_Grid": 0, "ensemble_members": 3,
                             "forecast_date": (("time", "leadtime"), np.zeros((1, len(leads))))},
                            coords={"time": times([m]), "leadtime": leads, "yc": np.arange(len(lats)) * 25.0,
                                    "xc": np.arange(len(longs)) * 25.0, "lat": (("yc", "xc"), la2), "lon": (("yc", "xc"), lo2)})
            fs.append(write(ds, f"south_daily_forecast.{m}.nc"))
        srcs = [{"loader": "icenet", "params": {"files": fs, "data_name": f"s{a}", "aggregate_type": a}} for a in ("MIN", "MAX")]
        ctx.step()
        if not before or day(start) == day(end) or day(end) - day(max(before)) >= 8:
            ctx.state(("icenet", "open"))
            return                                  # refused or left open
        m = max(before)
        o = Obs(reg, build_json(config(r, srcs, 0, 1)))
        by, errs = o.by_rect(), list(o.errors)
        for c in base_cells(config(r)):
            vals = [100 * val(m, t, i, j) for i, y in enumerate(lats) for j, x in enumerate(longs)
                    if c.x < offset(reg, x) < c.x + c.w and c.y < y < c.y + c.h for t in range(day(start), day(end) + 1)]
            for a in ("MIN", "MAX"):
                got, w = o.data[by[c]].get(f"s{a}", "absent"), aggregate(a, vals)
                if not close(got, w) and len(errs) < 4:
                    errs.append(f"cell {tuple(c)} {a}: {got!r}, expected {w!r}")
        if errs:
            ctx.fail(case, "; ".join(errs[:3]), "icenet")
        ctx.state(case)
        ctx.trace({"case": case}, outcome=m)


def ecmwf(ctx, bases, start, end, rname, layout=0):
    """Runs based at `bases` (day, hour) with leads of 0..6 days; the newest run based before the start counts."""
    import numpy as np
    import xarray as xr
    from datetime import datetime, timedelta
    case = {"format": "ecmwf_sig_wave_height", "bases": bases, "period": [start, end], "region": rname,
            "layout": layout}
    with ctx.guard(case, "ecmwf"):
        r = dict(reg_of(rname), start_time=start, end_time=end)
        reg = region_of(config(r))
        lats, longs = axis(reg)
        fs, runs = [], {}
        for n, (d, h) in enumerate(bases):
            b = datetime.strptime(d, "%Y-%m-%d") + timedelta(hours=h)
            for L in range(0, 145, 24):
                v = np.array([[1.0 + n * 1000 + L + i + 7 * j for j in range(len(longs))] for i in range(len(lats))])
                ds = xr.Dataset({"swh": (("latitude", "longitude"), v[::-1]), "mwp": (("latitude", "longitude"), v[::-1] * 3)},
                                coords={"latitude": lats[::-1], "longitude": longs, "step": L})
                k = 0 if layout == 0 else n if layout == 1 else 9 - n
                fs.append(write(ds, f"{b:%Y%m%d%H}0000-{L}h-wave-fc.grib2", f"e{_n[0] if not fs else top:08d}/{k}"))
                top = int(fs[0].split("/")[-3][1:])
                runs.setdefault(b, []).append((b + timedelta(hours=L), v))
        s, e = (datetime.strptime(x, "%Y-%m-%d") for x in (start, end))
        older = [b for b in runs if b < s]
        srcs = [{"loader": "ecmwf_sig_wave_height", "params": {"files": list(fs), "data_name": f"s{a}", "aggregate_type": a}}
                for a in ("MIN", "MAX", "COUNT")]
        ctx.step()
        use = [v for t, v in runs[max(older)] if s <= t <= e] if older else []
        if not use:
            try:
                build_json(config(r, srcs, 0, 1))
                ctx.fail(case, "built although no forecast covers the period", "ecmwf:refuse")
            except Exception:
                pass
            ctx.trace({"case": case}, outcome="refused")
            return
        o = Obs(reg, build_json(config(r, srcs, 0, 1)))
        by, errs = o.by_rect(), list(o.errors)
        for c in base_cells(config(r)):
            vals = [v[i, j] for v in use for i, y in enumerate(lats) for j, x in enumerate(longs)
                    if c.x < offset(reg, x) < c.x + c.w and c.y < y < c.y + c.h]
            for a in ("MIN", "MAX", "COUNT"):
                got, w = o.data[by[c]].get(f"s{a}", "absent"), aggregate(a, vals)
                if not close(got, w) and len(errs) < 4:
                    errs.append(f"cell {tuple(c)} {a}: {got!r}, expected {w!r}")
        if errs:
            ctx.fail(case, "; ".join(errs[:3]), "ecmwf")
        ctx.state(case)
        ctx.trace({"case": case}, outcome=len(use))


def down(ctx, rname, fx, fy, fmt):
    """Downsampling by factors that divide a cell's lattice keeps MIN, MAX and MEAN."""
    sp = FORMATS[fmt]
    case = {"format": fmt, "region": rname, "downsample": [fx, fy]}
    with ctx.guard(case, "downsample"):
        a, b, c, d = REG[rname]
        r = region_cfg(a, b, c, d, 8, 8, DAYS[0], DAYS[-1])
        reg = region_of(config(r))
        cells = base_cells(config(r))
        f = Field(reg, cells, None, D2[:1])
        fs = sp["make"](f, "one", False)
        srcs = [{"loader": fmt, "params": {"files": fs, "data_name": f"s{g}", "aggregate_type": g, "downsample_factors": [fx, fy]}}
                for g in ("MIN", "MAX", "MEAN", "COUNT")]
        ctx.step()
        o = Obs(reg, build_json(config(r, srcs, 0, 1)))
        by, errs = o.by_rect(), list(o.errors)
        for cell in cells:
            for g in ("MIN", "MAX", "MEAN", "COUNT"):
                w = expected(fmt, reg, cell, f, DAYS[0], DAYS[-1], g)[0]
                if g == "COUNT":
                    w /= fx * fy
                got = o.data[by[cell]].get(f"s{g}", "absent")
                if not close(got, w) and len(errs) < 4:
                    errs.append(f"cell {tuple(cell)} {g}: {got!r}, expected {w!r}")
        if errs:
            ctx.fail(case, "; ".join(errs[:3]), "downsample")
        ctx.state(case)
        ctx.trace({"case": case})


def units(ctx):
    case = {"format": "bsose_sic", "units": "furlongs"}
    with ctx.guard(case, "units"):
        r = dict(reg_of("plain"), start_time=DAYS[0], end_time=DAYS[-1])
        reg = region_of(config(r))
        f = Field(reg, base_cells(config(r)), None, D2)
        fs = FORMATS["bsose_sic"]["make"](f, "one", True)
        ctx.step()
        try:
            build_json(config(r, [{"loader": "bsose_sic", "params": {"files": fs, "units": "furlongs"}}], 0, 1))
            ctx.fail(case, "an unknown unit was accepted", "units")
        except ValueError:
            pass
        ctx.trace({"case": case})


def special(tier):
    out = []
    cand = [DAYS[1], DAYS[3], DAYS[5]]
    wins = [(i, j) for i, j in itertools.combinations_with_replacement(range(7), 2)]
    for hemi in ("north", "South"):
        for ds in ([cand[0]], cand[:2], cand):
            for i, j in wins:
                if tier == "quick" and (i + 2 * j + len(ds)) % 4:
                    continue
                out.append(("polar", hemi, ds, DAYS[i], DAYS[j], "amsr"))
        out.append(("polar", hemi, [cand[0]], DAYS[0], DAYS[5], "visual_iced"))
        out.append(("polar", hemi, [cand[0]], DAYS[0], DAYS[5], "visual_iced_tiff"))
    for r in ("plain", "south", "greenwich", "am"):
        for layout in ("one", "coords", "components", "dates"):
            for dated in (0, 1):
                for tilt in (0, 1, -2):
                    if not (layout == "dates" and not dated):
                        out.append(("oras5", r, layout, dated, tilt))
    for k in (1, 2, 3):
        for made in itertools.combinations(DAYS[:4], k):
            for i, j in itertools.combinations(range(1, 8), 2):
                if tier == "quick" and (i + j + k) % 2:
                    continue
                out.append(("icenet", list(made), DAYS[i], DAYS[j], "am" if (i + j) % 3 == 0 else "south"))
    bs = [(DAYS[0], 0), (DAYS[1], 0), (DAYS[1], 12), (DAYS[2], 0)]
    for k in (1, 2, 3):
        for b in itertools.combinations(bs, k):
            for i, j in itertools.combinations_with_replacement(range(8), 2):
                if tier == "quick" and (i + j + k) % 3:
                    continue
                out.append(("ecmwf", [list(x) for x in b], DAYS[i], DAYS[j], "am" if (i + j) % 2 else "plain", (i + j // 3) % 3))
    for r in ("plain", "south", "greenwich"):
        for fx, fy in ((1, 2), (2, 1), (2, 2)):
            for fmt in ("gebco", "bsose_depth"):
                out.append(("down", r, fx, fy, fmt))
    out.append(("units",))
    return out


def tasks(tier):
    t = []
    for f in FORMATS:
        n = len(cases(f, tier))
        t += [{"fmt": f, "lo": lo, "hi": min(n, lo + 12)} for lo in range(0, n, 12)]
    n = len(special(tier))
    t += [{"fmt": None, "lo": lo, "hi": min(n, lo + 12)} for lo in range(0, n, 12)]
    return t


FN = {"polar": polar, "oras5": oras5, "icenet": icenet, "ecmwf": ecmwf, "down": down, "units": units}


def run(task, ctx):
    if task["fmt"]:
        for c in cases(task["fmt"], ctx.tier)[task["lo"]:task["hi"]]:
            build_case(ctx, task["fmt"], **c)
    else:
        for c in special(ctx.tier)[task["lo"]:task["hi"]]:
            FN[c[0]](ctx, *c[1:])
    empty()


def empty():
    """Free the disk space of the files written so far.  The files stay, with no content: the HDF5 library takes a new file
    with the number (inode) of one that it still holds open for that one."""
    for p in _files:
        os.truncate(p, 0)
    _files.clear()
