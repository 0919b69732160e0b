"""Input data sets (tables and grids) and the reference meaning of 'inside a cell'."""
import math
import os

from mc import env
from mc.geom import frac
from mc.meshes import csv, abs_long


def table(name, pts, agg="MEAN", times=None, **params):
    """scalar_csv source.  pts: [(lat, long, value)], value None = missing."""
    if times is None:
        path = csv(pts, f"lat,long,{name}")
    else:
        path = csv([(a, b, t, v) for (a, b, v), t in zip(pts, times)], f"lat,long,time,{name}")
    p = {"files": [path], "data_name": name, "aggregate_type": agg}
    p.update(params)
    return {"loader": "scalar_csv", "params": p}


_nc = {}


def grid_file(lats, longs, values, times=None, var="elevation"):
    """netCDF file; values[(t,) lat, long] nested lists with None/NaN for missing."""
    import numpy as np
    import xarray as xr
    key = (os.getpid(), tuple(lats), tuple(longs), repr(values), tuple(times or ()), var)
    if key in _nc:
        return _nc[key]
    arr = np.array(values, dtype=float)
    coords = {"lat": np.array(lats, dtype=float), "lon": np.array(longs, dtype=float)}
    dims = ("lat", "lon")
    if times:
        coords["time"] = np.array(times, dtype="datetime64[ns]")
        dims = ("time",) + dims
    ds = xr.Dataset({var: (dims, arr)}, coords=coords)
    path = os.path.join(env.scratch(), f"g{len(_nc)}.nc")
    ds.to_netcdf(path)
    _nc[key] = path
    return path


def grid(name, lats, longs, values, agg="MEAN", times=None, **params):
    """gebco source (gridded)."""
    path = grid_file(lats, longs, values, times)
    p = {"files": [path], "data_name": name, "aggregate_type": agg}
    p.update(params)
    return {"loader": "gebco", "params": p}


def vtable(name, pts, agg="MEAN", times=None, **params):
    """vector_csv source.  name: 'u,v'; pts: [(lat, long, (u, v))]."""
    if times is None:
        path = csv([(a, b) + v for a, b, v in pts], f"lat,long,{name}")
    else:
        path = csv([(a, b, t) + v for (a, b, v), t in zip(pts, times)], f"lat,long,time,{name}")
    p = {"files": [path], "data_name": name, "aggregate_type": agg}
    p.update(params)
    return {"loader": "vector_csv", "params": p}


_vnc = {}


def vgrid(name, pts, agg="MEAN", times=None, **params):
    """northsea_currents source (gridded vectors, one date or several)."""
    import numpy as np
    import xarray as xr
    days = sorted(set(times)) if times else ["2020-01-15"]
    times = list(times) if times else days * len(pts)
    key = (os.getpid(), tuple(pts), tuple(times))
    if key not in _vnc:
        lats, longs = sorted({r[0] for r in pts}), sorted({r[1] for r in pts})
        u = np.full((len(days), len(lats), len(longs)), np.nan)
        v = u.copy()
        for (a, b, w), t in zip(pts, times):
            k = days.index(t), lats.index(a), longs.index(b)
            u[k], v[k] = w
        ds = xr.Dataset({"U": (("times", "lat", "lon"), u), "V": (("times", "lat", "lon"), v)},
                        coords={"times": np.array(days, dtype="datetime64[ns]"), "lat": lats, "lon": longs})
        path = os.path.join(env.scratch(), f"v{len(_vnc)}.nc")
        ds.to_netcdf(path)
        _vnc[key] = path
    p = {"files": [_vnc[key]], "data_name": name, "aggregate_type": agg}
    p.update(params)
    return {"loader": "northsea_currents", "params": p}


def offset(reg, lon):
    """Degrees east of the region's west edge, in (0, 360]; the west edge itself is 0."""
    d = (lon - reg.long_min) % 360
    if d == 0:
        return 0.0 if lon == reg.long_min or not reg.globe else 360.0
    return d


def inside(reg, r, lat, lon):
    """Reference membership: lower edges excluded, upper edges included."""
    if reg.decimal:
        lat, lon = frac(lat), frac(lon)
    x = offset(reg, lon)
    return r.y < lat <= r.y + r.h and r.x < x <= r.x + r.w


def lattice(reg, dx, dy, margin=1):
    """Lattice over the region and `margin` steps beyond it: (lats, longs) sorted;
    the antimeridian is spelled +180."""
    lats = []
    n = round(reg.H / dy)
    for j in range(-margin, n + margin + 1):
        y = reg.lat_min + j * dy
        if -90 <= y <= 90:
            lats.append(float(y))
    longs = set()
    m = round(reg.W / dx)
    for i in range(-margin, m + margin + 1):
        longs.add(float(abs_long(reg, i * dx)))
    if reg.long_min == -180:
        longs.discard(-180.0)
    return sorted(lats), sorted(longs)


def aggregate(agg, vals):
    """Reference aggregates over present values; None when undefined."""
    if agg == "COUNT":
        return float(len(vals))
    if not vals:
        return None
    if agg == "MIN":
        return min(vals)
    if agg == "MAX":
        return max(vals)
    if agg == "MEAN":
        return math.fsum(vals) / len(vals)
    if agg == "MEDIAN":
        s = sorted(vals)
        k = len(s) // 2
        return s[k] if len(s) % 2 else (s[k - 1] + s[k]) / 2
    if agg == "STD":
        m = math.fsum(vals) / len(vals)
        return math.sqrt(math.fsum((v - m) ** 2 for v in vals) / len(vals))
    raise ValueError(agg)


def is_nan(v):
    return isinstance(v, float) and v != v


def same(a, b, tol=1e-9, one=1.0):
    """a: observed (float, NaN allowed); b: expected or None for NaN."""
    if b is None:
        return is_nan(a)
    if not isinstance(a, (int, float)) or isinstance(a, bool) or is_nan(a):
        return False
    return abs(a - b) <= tol * max(one, abs(b))
