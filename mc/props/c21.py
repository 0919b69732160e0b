"""C21: loaders written by the user: any projection, table or grid, named and sampled as configured."""
import copy
import itertools
import math

from mc.meshes import region_cfg, region_of, config, Obs, csv, build_json
from mc.sources import inside, aggregate, same

ID = "C21"
LEVEL = "model_checking"
RULE = ("a state is (data handed over by a user's loader, their projection and form, names, sampling) -> cells and values of the "
        "mesh; a transition is one build of the real code with the loader added to a builder; the oracle projects the points "
        "forward, keeps their geographic positions and aggregates the raw data inside each cell")
ASSUMPTIONS = ["pyproj's forward projection is right", "data points lie at least 1e-4 degrees from cell edges",
               "in a grid a missing vector misses both components", "fast_reprojection (interpolation) is left open",
               "downsampling: rows and columns are binned from the smallest coordinate"]

START, END = "2020-01-01", "2020-01-10"
INSIDE, OUTSIDE = "2020-01-05", "2020-02-01"
# projection -> regions it is used for
PROJ = {
    "EPSG:3412": ["south", "south_am"], "EPSG:3031": ["south", "south_am"], "EPSG:3411": ["north", "north_am"],
    "EPSG:3413": ["north"], "EPSG:3857": ["mid", "south"], "EPSG:6932": ["south_am"], "EPSG:4326": ["mid", "south_am"],
}
REG = {"south": region_cfg(-76, -68, -44, -28, 8, 4), "south_am": region_cfg(-76, -68, 172, -172, 8, 4),
       "north": region_cfg(68, 76, 10, 26, 8, 4), "north_am": region_cfg(68, 76, 172, -172, 8, 4),
       "mid": region_cfg(-4, 4, -8, 8, 8, 4)}
# degrees north and east of the south-west corner; the last two lie outside the region
SITES = [(1.25, 2.5), (2.75, 6.5), (6.5, 3.5), (5.5, 12.25), (2.5, 18.5), (-3.5, 3.5)]
VALS = {"quick": (None, 1.0, 4.0), "thorough": (None, math.nan, 1.0, 4.0)}
AGGS = ("MEAN", "MAX", "MIN", "COUNT", "MEDIAN")
VAGGS = ("MEAN", "COUNT")
COLS = (("x", "y"), ("xc", "yc"), ("y", "x"), ("long", "lat"), ("lat", "long"))
FACT = ([1, 1], [2, 1], [1, 2], [2, 2], [3, 2], [2, 3], [4, 1], (2, 1))


def bounds(tier):
    return (f"{sum(map(len, PROJ.values()))} pairs of projection and region; tables: every assignment of {len(VALS[tier])} contents to 6 positions, 5 pairs "
            "of column names, scalar and vector, with and without dates; grids: every pattern of missing values on 3x3 projected "
            "grids, axes in both orders and directions, with and without dates; downsampling by 8 pairs of factors over grids of 1-6 x 1-6")


def place(region, dy, dx):
    r = region_of(config(region))
    lon = r.long_min + dx
    return r.lat_min + dy, (lon + 180) % 360 - 180


def forward(proj, lat, lon):
    from pyproj import Transformer
    key = proj
    if key not in _tr:
        _tr[key] = Transformer.from_crs("EPSG:4326", proj, always_xy=True)
    return _tr[key].transform(lon, lat)


def backward(proj, x, y):
    from pyproj import Transformer
    key = (proj, "inv")
    if key not in _tr:
        _tr[key] = Transformer.from_crs(proj, "EPSG:4326", always_xy=True)
    lon, lat = _tr[key].transform(x, y)
    return lat, lon


_tr = {}


def loader(vec, data, defaults, per_class):
    from meshiphi.dataloaders.scalar.abstract_scalar import ScalarDataLoader
    from meshiphi.dataloaders.vector.abstract_vector import VectorDataLoader
    base = VectorDataLoader if vec else ScalarDataLoader

    if per_class:
        class MyLoader(base):
            def add_default_params(self, params):
                params = super().add_default_params(params)
                params.update(copy.deepcopy(defaults))
                return params

            def import_data(self, bounds):
                return data.copy()
        return MyLoader, {}

    class MyLoader2(base):
        def import_data(self, bounds):
            return data.copy()
    return MyLoader2, copy.deepcopy(defaults)


def period(region):
    return dict(region, start_time=START, end_time=END)


def build(ctx, region, vec, data, defaults, per_class, params, depth, cond):
    from meshiphi.mesh_generation.mesh_builder import MeshBuilder
    cls, p = loader(vec, data, defaults, per_class)
    p.update(params)
    p["value_fill_types"] = "nan"
    if cond is not None:
        p["splitting_conditions"] = [cond]
    b = MeshBuilder(config(region, [], depth, 1))
    b.add_dataloader(cls, p, min_dp=1)
    doc = b.build_environmental_mesh().to_json()
    ctx.step()
    return Obs(region_of(config(region)), doc)


def refined(reg, bases, pts, thr):
    """Initial cells to be split: some but not all of the present data exceed the threshold."""
    out = set()
    for r in bases:
        vs = [v for a, b, v in pts if v == v and inside(reg, r, a, b)]
        over = [v for v in vs if v > thr]
        if over and len(over) < len(vs):
            out.add(r)
    return out


def compare(ctx, case, key, obs, reg, names, pts, agg):
    """pts: (lat, long, components); values of every cell against the data inside it."""
    if obs.errors or obs.tiling():
        ctx.fail(case, f"not a correct mesh: {(obs.errors or obs.tiling())[0]}", key)
        return False
    for i, r in obs.cells.items():
        data = obs.data[i]
        if set(data) != set(names):
            ctx.fail(case, f"cell {tuple(r)} has values {sorted(data)}, expected {sorted(names)}", key)
            return False
        here = [v for a, b, v in pts if inside(reg, r, a, b)]
        for j, n in enumerate(names):
            vs = [v[j] for v in here if v[j] == v[j]]
            want = aggregate(agg, vs)
            if not same(data[n], want) and not (agg == "COUNT" and not vs and data[n] != data[n]):
                ctx.fail(case, f"cell {tuple(r)} {n}: {data[n]!r}, expected {want!r} ({agg} of {vs})", key)
                return False
    return True


def table_case(ctx, proj, rname, vals, vec, agg, cols, dated, named, per_class, split):
    case = {"table": [proj, rname, ["nan" if v is not None and v != v else v for v in vals], vec, agg, list(cols), dated, named,
                      per_class, split]}
    key = f"table:{'vector' if vec else 'scalar'}"
    with ctx.guard(case, key):
        import pandas as pd
        region = period(REG[rname])
        reg = region_of(config(region))
        if proj == "EPSG:4326":
            cols = ("long", "lat")
        rows, pts = [], []
        for k, ((dy, dx), v) in enumerate(zip(SITES, vals)):
            if v is None:
                continue
            v = math.nan if v == "nan" else v
            lat, lon = place(region, dy, dx)
            x, y = forward(proj, lat, lon) if proj != "EPSG:4326" else (lon, lat)
            comp = (v, 3 - 2 * v) if vec else (v,)
            # every other point is given twice: inside and outside the period
            for t in ((INSIDE, OUTSIDE) if dated and k % 2 else (INSIDE,)):
                w = comp if t == INSIDE else tuple(c + 100 for c in comp)
                rows.append((x, y) + ((t,) if dated else ()) + w)
                if t == INSIDE or not dated:
                    pts.append((lat, lon, w))
        own = ("a", "b")[:len(pts[0][2])] if pts else (("a", "b") if vec else ("a",))
        df = pd.DataFrame(rows, columns=list(cols) + (["time"] if dated else []) + list(own))
        if df.empty:
            for c in df.columns:
                df[c] = df[c].astype(str if c == "time" else float)
        defaults = {} if proj == "EPSG:4326" else {"in_proj": proj, "x_col": cols[0], "y_col": cols[1]}
        params = {"aggregate_type": agg}
        names = list(own)
        if named:
            names = ["p", "q"][:len(own)]
            params["data_name"] = ",".join(names)
        cond = {names[0]: {"threshold": 2.5, "lower_bound": 0.0, "upper_bound": 1.0}} if split and not vec else None
        o = build(ctx, region, vec, df, defaults, per_class, params, 1, cond)
        if not compare(ctx, case, key, o, reg, names, pts, agg):
            return
        if cond is not None:
            from mc.meshes import base_cells, leaves_of
            bs = base_cells(config(region))
            want = set(leaves_of(bs, refined(reg, bs, [(a, b, v[0]) for a, b, v in pts], 2.5)))
            if set(o.cells.values()) != want:
                ctx.fail(case, f"cells {sorted(set(o.cells.values()) - want)[:2]} instead of {sorted(want - set(o.cells.values()))[:2]}", key)
                return
        ctx.state((case["table"], len(o.cells)))
        ctx.trace({"case": case}, outcome=len(o.cells))


def grid_case(ctx, proj, rname, mask, vec, agg, order, dated, named, per_class):
    """A 3x3 grid in projected coordinates around the middle of the region."""
    case = {"grid": [proj, rname, mask, vec, agg, order, dated, named, per_class]}
    key = f"grid:{'vector' if vec else 'scalar'}"
    with ctx.guard(case, key):
        import numpy as np
        import pandas as pd
        import xarray as xr
        region = period(REG[rname])
        reg = region_of(config(region))
        cx, cy = forward(proj, *place(region, 4.3, 7.6))
        ax, ay = forward(proj, *place(region, 5.9, 9.3))
        step = max(math.hypot(ax - cx, ay - cy), 1000.0)
        xs = [cx - step, cx, cx + step]
        ys = [cy - step, cy, cy + step]
        if order % 2:
            ys = ys[::-1]
        cols = ("x", "y") if order < 2 else ("xgrid", "ygrid")
        dims = (cols[1], cols[0]) if order % 4 < 2 else cols
        times = [INSIDE, OUTSIDE] if dated else [None]
        val = {}
        pts = []
        for t in times:
            for i, y in enumerate(ys):
                for j, x in enumerate(xs):
                    k = 3 * i + j
                    v = math.nan if mask >> k & 1 else float((5 * k) % 9 + (50 if t == OUTSIDE else 0))
                    comp = (v, 1 - v) if vec else (v,)
                    val[t, i, j] = comp
                    lat, lon = backward(proj, x, y)
                    if t != OUTSIDE:
                        pts.append((lat, lon, comp))
        own = ("a", "b") if vec else ("a",)
        ds = {}
        for c, n in enumerate(own):
            arr = np.array([[[val[t, i, j][c] for j in range(3)] for i in range(3)] for t in times])
            if dims == cols:
                arr = arr.transpose(0, 2, 1)
            ds[n] = (("time",) + dims, arr) if dated else (dims, arr[0])
        coords = {cols[0]: xs, cols[1]: ys}
        if dated:
            coords["time"] = pd.to_datetime(times)
        data = xr.Dataset(ds, coords=coords)
        params = {"aggregate_type": agg}
        names = list(own)
        if named:
            names = ["p", "q"][:len(own)]
            params["data_name"] = ",".join(names)
        o = build(ctx, region, vec, data, {"in_proj": proj, "x_col": cols[0], "y_col": cols[1]}, per_class, params, 0, None)
        if dated:
            pts = pts[:9]
        if not compare(ctx, case, key, o, reg, names, pts, agg):
            return
        ctx.state(case)
        ctx.trace({"case": case}, outcome=len(o.cells))


def down_case(ctx, ny, nx, fac, vec, agg, named, form):
    """A complete geographic grid, one cell: downsampled before it is aggregated; tables are left as they are."""
    case = {"down": [ny, nx, list(fac), isinstance(fac, tuple), vec, agg, named, form]}
    key = f"down:{'vector' if vec else 'scalar'}"
    with ctx.guard(case, key):
        import numpy as np
        import xarray as xr
        region = period(REG["mid"])
        reg = region_of(config(region))
        lats = [-3.3 + 1.1 * i for i in range(ny)]
        longs = [-7.1 + 1.3 * j for j in range(nx)]
        a = np.array([[float((7 * i * i + 3 * j + i * j) % 11) for j in range(nx)] for i in range(ny)])
        comps = [a, 5 - 2 * a] if vec else [a]
        own = ("a", "b")[:len(comps)]
        ds = xr.Dataset({n: (("lat", "long"), c) for n, c in zip(own, comps)}, coords={"lat": lats, "long": longs})
        pts = []
        if form == "table":
            data = ds.to_dataframe().reset_index()
            for i in range(ny):
                for j in range(nx):
                    pts.append((lats[i], longs[j], tuple(float(c[i, j]) for c in comps)))
        else:
            data = ds
            fx, fy = fac
            for i in range(0, ny, fy):
                for j in range(0, nx, fx):
                    ii, jj = range(i, min(ny, i + fy)), range(j, min(nx, j + fx))
                    if agg == "COUNT":
                        # thinned out: one value stays of every bin, at the place of its first element
                        pts.append((lats[i], longs[j], tuple(float(c[i, j]) for c in comps)))
                        continue
                    y = sum(lats[q] for q in ii) / len(ii)
                    x = sum(longs[q] for q in jj) / len(jj)
                    pts.append((y, x, tuple(aggregate(agg, [float(c[q, r]) for q in ii for r in jj]) for c in comps)))
        params = {"aggregate_type": agg, "downsample_factors": fac}
        names = list(own)
        if named:
            names = ["p", "q"][:len(own)]
            params["data_name"] = ",".join(names)
        edge = min(abs(v) for p in pts for v in p[:2])
        if edge < 1e-4:
            return
        o = build(ctx, region, vec, data, {}, False, params, 0, None)
        if not compare(ctx, case, key, o, reg, names, pts, agg):
            return
        ctx.state(case)
        ctx.trace({"case": case}, outcome=len(o.cells))


def tables(tier):
    out = []
    n = 0
    for proj, regs in PROJ.items():
        for rname in regs:
            for vals in itertools.product(VALS[tier], repeat=6):
                for vec in (False, True):
                    n += 1
                    if tier == "quick" and vec and (n // 2) % 3:
                        continue
                    agg = VAGGS[n // 3 % 2] if vec else AGGS[n // 2 % 5]
                    out.append((proj, rname, vals, vec, agg, COLS[n // 7 % 5], bool(n // 5 % 2), bool(n // 11 % 2),
                                bool(n // 13 % 2), bool(n // 17 % 3)))
    return out


def grids(tier):
    out = []
    n = 0
    for proj, regs in PROJ.items():
        if proj == "EPSG:4326":
            continue
        for rname in regs:
            for mask in range(512):
                for vec in (False, True):
                    n += 1
                    if tier == "quick" and (n // 2 + vec) % 3:
                        continue
                    agg = VAGGS[n // 3 % 2] if vec else AGGS[n // 2 % 5]
                    out.append((proj, rname, mask, vec, agg, n // 4 % 8, bool(n // 5 % 2), bool(n // 11 % 2), bool(n // 13 % 2)))
    return out


def downs(tier):
    out = []
    n = 0
    rng = range(1, 7)
    for ny in rng:
        for nx in rng:
            for fac in FACT:
                for vec in (False, True):
                    for form in ("grid", "table"):
                        n += 1
                        if form == "table" and n % 8 > 3:
                            continue
                        for agg in (("MEAN", "COUNT") if vec else ("MEAN", "MIN", "MAX", "COUNT")):
                            if tier == "quick" and (n + len(agg)) % 2 and form == "table":
                                continue
                            out.append((ny, nx, fac, vec, agg, bool(n // 3 % 2), form))
    return out


KINDS = {"table": (tables, table_case, 250), "grid": (grids, grid_case, 150), "down": (downs, down_case, 120)}
_cache = {}


def listing(kind, tier):
    if (kind, tier) not in _cache:
        _cache[kind, tier] = KINDS[kind][0](tier)
    return _cache[kind, tier]


def tasks(tier):
    t = []
    for k, (_, _, size) in KINDS.items():
        n = len(listing(k, tier))
        t += [{"kind": k, "lo": lo, "hi": min(n, lo + size)} for lo in range(0, n, size)]
    return t


def run(task, ctx):
    for c in listing(task["kind"], ctx.tier)[task["lo"]:task["hi"]]:
        KINDS[task["kind"]][1](ctx, *c)


def replay_case(case, ctx):
    (k, c), = case.items()
    if k == "down":
        ny, nx, fac, tup, *rest = c
        c = [ny, nx, tuple(fac) if tup else fac] + rest
    KINDS[k][1](ctx, *c)
