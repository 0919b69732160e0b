"""C17: look-up tables (polygons with a value, seasonal ice tables) fill and split cells by the polygons over them."""
import datetime
import itertools
import json
import math
import os
from fractions import Fraction as F

from mc import env
from mc.geom import Rect
from mc.meshes import region_cfg, region_of, config, build_json, Obs, base_cells, children

ID = "C17"
LEVEL = "model_checking"
RULE = ("a state is (set of polygons with values, loader, aggregation, filling, period) -> values and cells of the built mesh; a "
        "transition is one build of the real code; the oracle clips every polygon with every cell in exact rational arithmetic "
        "and applies the documented season tables day by day")
ASSUMPTIONS = ["areas are measured in degrees, as the code does",
               "polygon values are numbers or booleans", "the periods lie in 2019-2021"]

REG = region_cfg(0, 8, 0, 16, 8, 8)          # two cells
FOUR = region_cfg(-8, 8, -8, 8, 8, 8)
AM = region_cfg(-8, 0, 172, -172, 8, 8)
AMX = region_cfg(-8, 0, 168, -176, 16, 8)       # one cell across the antimeridian
POLES = region_cfg(-90, 90, 0, 20, 20, 60)
REGS = {"REG": REG, "FOUR": FOUR, "AM": AM, "AMX": AMX, "POLES": POLES}
AGGS = ("MIN", "MAX", "MEAN", "MEDIAN", "STD", "COUNT")


def bounds(tier):
    return ("every rectangle with corners on a 4-degree lattice over two cells (edges on and inside cell borders, overhanging) and "
            f"every pair of {'a spread of them' if tier == 'quick' else 'them'}, triangles, holes and multipolygons, tables, GeoJSON, "
            "shapefiles and protected areas, every aggregation, filling and division of the polygons over files; splitting by polygon "
            "edges on and off the lattice to depth 3; density and thickness for regions around every border of the sectors, both "
            "hemispheres, the antimeridian and the globe, every period from a set of days around the season changes, every "
            "aggregation, renamed or not")


# ------------------------------------------------------------------ exact geometry (reference)
def area(ring):
    return sum(x0 * y1 - x1 * y0 for (x0, y0), (x1, y1) in zip(ring, ring[1:] + ring[:1])) / 2


def clip(ring, x0, x1, y0, y1):
    """Sutherland-Hodgman against a rectangle, in fractions."""
    for axis, lim, keep_less in ((0, x0, False), (0, x1, True), (1, y0, False), (1, y1, True)):
        out = []
        for a, b in zip(ring, ring[1:] + ring[:1]):
            ia = a[axis] <= lim if keep_less else a[axis] >= lim
            ib = b[axis] <= lim if keep_less else b[axis] >= lim
            if ia:
                out.append(a)
            if ia != ib:
                t = F(lim - a[axis]) / F(b[axis] - a[axis])
                out.append((a[0] + t * (b[0] - a[0]), a[1] + t * (b[1] - a[1])))
        ring = out
        if not ring:
            return []
    return ring


def poly_area(poly, rect):
    """Area of a polygon {shell, holes} inside a rectangle (holes lie inside the shell)."""
    s = sum(abs(area(clip(r, *rect))) for r in [poly["shell"]] if clip(r, *rect))
    return s - sum(abs(area(clip(h, *rect))) for h in poly.get("holes", []) if clip(h, *rect))


def box(x0, y0, x1, y1):
    return {"shell": [(F(x0), F(y0)), (F(x1), F(y0)), (F(x1), F(y1)), (F(x0), F(y1))]}


def ring_text(r):
    return "(" + ", ".join(f"{float(x)} {float(y)}" for x, y in r + r[:1]) + ")"


def wkt(polys):
    body = ["(" + ", ".join(ring_text(r) for r in [p["shell"]] + p.get("holes", [])) + ")" for p in polys]
    return f"POLYGON {body[0]}" if len(body) == 1 else "MULTIPOLYGON (" + ", ".join(body) + ")"


def rects(region, cell):
    """Longitude/latitude rectangles of a cell, cut at the antimeridian."""
    lo = region.long_min + cell.x
    hi = lo + cell.w
    parts = [(lo, hi)] if hi <= 180 else ([(lo - 360, hi - 360)] if lo >= 180 else [(lo, 180), (-180, hi - 360)])
    return [(F(a), F(b), F(cell.y), F(cell.y + cell.h)) for a, b in parts]


# ------------------------------------------------------------------ reference aggregate
def aggregate(items, agg):
    """items: [(value, weight > 0)]; value None is missing and propagates."""
    if agg == "COUNT":
        return len(items)
    if not items or any(v is None for v, _ in items):
        return math.nan
    vs = sorted(items)
    tot = sum(w for _, w in vs)
    if agg == "MIN":
        return vs[0][0]
    if agg == "MAX":
        return vs[-1][0]
    mean = sum(F(v) * w for v, w in vs) / tot
    if agg == "MEAN":
        return float(mean)
    if agg == "STD":
        return math.sqrt(sum((F(v) - mean) ** 2 * w for v, w in vs) / tot)
    acc = 0
    for v, w in vs:
        acc += w
        if acc == tot / 2:
            return (v, min(x for x, _ in vs if x > v)) if any(x > v for x, _ in vs) else v     # a tie: either neighbour
        if acc > tot / 2:
            return v


def same(got, want):
    if isinstance(want, tuple):
        return any(same(got, w) for w in want) or (not isinstance(got, bool) and want[0] <= got <= want[1])
    try:
        g, w = float(got), float(want)
    except (TypeError, ValueError):
        return False
    return (math.isnan(g) and math.isnan(w)) or abs(g - w) <= 1e-9 * max(1, abs(w))


# ------------------------------------------------------------------ polygon tables
def write_csv(rows, name):
    p = os.path.join(env.scratch(), name)
    with open(p, "w") as f:
        f.write("geometry,zone\n")
        for polys, v in rows:
            f.write(f'"{wkt(polys)}",{v}\n')
    return p


def write_geo(rows, name):
    p = os.path.join(env.scratch(), name)
    if name.endswith(".shp"):
        import geopandas as gpd
        from shapely import wkt as sw
        gpd.GeoDataFrame({"n": list(range(len(rows)))}, geometry=[sw.loads(wkt(pl)) for pl, _ in rows], crs="EPSG:4326").to_file(p)
        return p
    feats = []
    for i, (polys, _) in enumerate(rows):
        co = [[[[float(x), float(y)] for x, y in r + r[:1]] for r in [pl["shell"]] + pl.get("holes", [])] for pl in polys]
        g = {"type": "Polygon", "coordinates": co[0]} if len(co) == 1 else {"type": "MultiPolygon", "coordinates": co}
        feats.append({"type": "Feature", "properties": {"n": i, "other": "x"}, "geometry": g})
    with open(p, "w") as f:
        json.dump({"type": "FeatureCollection", "features": feats}, f)
    return p


FILLS = (None, "parent", 5, "0")
_n = [0]


def uncovered(rows, rs):
    """Area of the rectangles not covered by any polygon, exactly (inclusion-exclusion over a common refinement)."""
    return sum((b - a) * (d - c) for a, b, c, d in rs) - union_area(rows, rs)


def union_area(rows, rs):
    polys = [p for ps, _ in rows for p in ps]
    tot = F(0)
    for r in rs:
        inside = [p for p in polys if poly_area(p, r) > 0]
        if len(inside) == 0:
            continue
        if len(inside) == 1:
            tot += poly_area(inside[0], r)
            continue
        # boxes only: coordinate compression
        xs = sorted({x for p in inside for x, _ in p["shell"]} | {r[0], r[1]})
        ys = sorted({y for p in inside for _, y in p["shell"]} | {r[2], r[3]})
        for x0, x1 in zip(xs, xs[1:]):
            for y0, y1 in zip(ys, ys[1:]):
                if x0 >= r[0] and x1 <= r[1] and y0 >= r[2] and y1 <= r[3]:
                    c = (x0, x1, y0, y1)
                    best = max(poly_area(p, c) for p in inside)
                    tot += best
    return tot


def table_case(ctx, loader, rows, agg, fill, files=1, region="REG", value=None, name=None, case=None):
    case = case or {"table": [loader, spec_rows(rows), agg, fill, files, region, value, name]}
    key = f"{loader}:{agg}"
    with ctx.guard(case, key):
        _n[0] += 1
        groups = [rows[k::files] for k in range(files)]
        tag = f"{_n[0] % 50}"
        if loader == "lut_csv":
            paths = [write_csv(g, f"t{tag}_{k}.csv") for k, g in enumerate(groups)]
        else:
            ext = "shp" if loader == "lut_shapefile" else "geojson"
            paths = [write_geo(g, f"t{tag}_{k}.{ext}") for k, g in enumerate(groups)]
        params = {"files": paths, "aggregate_type": agg}
        if fill is not None:
            params["value_fill_types"] = fill
        if loader in ("lut_geojson", "lut_shapefile"):
            params["value"] = value
        if name:
            params["data_name"] = name
        col = {"lut_csv": "zone", "scotland_ncmpa": name or "exclusion_zone"}.get(loader, name or "dummy_data")
        rc = REGS[region]
        cfg = config(rc, [{"loader": loader, "params": params}], 0, 1)
        reg = region_of(cfg)
        doc = build_json(cfg)
        ctx.step()
        obs = Obs(reg, doc)
        if obs.errors:
            ctx.fail(case, obs.errors[0], key)
            return
        vals = []
        for i, cell in sorted(obs.cells.items()):
            rs = rects(reg, cell)
            if loader == "lut_csv":
                tv = [v for _, v in rows]
                other = None
            elif loader == "scotland_ncmpa":
                tv, other = [1] * len(rows), 0
            else:
                tv, other = [value] * len(rows), ((not value) if isinstance(value, bool) else None)
            items = []
            for (polys, _), v in zip(rows, tv):
                for pl in polys:
                    w = sum(poly_area(pl, r) for r in rs)
                    if w > 0:
                        items.append((v, w))
            u = uncovered(rows, rs)
            if u > 0:
                if agg == "COUNT":
                    continue                     # whether the undefined rest counts is left open
                items.append((other, u))
            want = aggregate(items, agg)
            if isinstance(want, float) and math.isnan(want) and fill not in (None, "parent"):
                want = float(fill)
            got = obs.data[i].get(col, "absent")
            vals.append(str(got))
            if not same(got, want):
                ctx.fail(case, f"{loader} {agg} over {[(wkt(p), v) for p, v in rows]}: cell {rs} has {col}={got!r}, expected {want!r}",
                         key)
                break
        ctx.state((case["table"][0], vals))
        ctx.trace({"case": case}, outcome=vals[:2])


def spec_rows(rows):
    return [[[[[[str(x), str(y)] for x, y in r] for r in [p["shell"]] + p.get("holes", [])] for p in polys], v] for polys, v in rows]


def rows_of(spec):
    out = []
    for polys, v in spec:
        ps = []
        for rings in polys:
            rr = [[(F(x), F(y)) for x, y in r] for r in rings]
            ps.append({"shell": rr[0], "holes": rr[1:]})
        out.append((ps, v))
    return out


def lattice_boxes():
    xs, ys = (-4, 0, 4, 8, 12, 16, 20), (-4, 0, 4, 8, 12)
    return [box(a, c, b, d) for a, b in itertools.combinations(xs, 2) for c, d in itertools.combinations(ys, 2)]


def special_polys():
    f = F
    tri = {"shell": [(f(1), f(1)), (f(15), f(1)), (f(8), f(7))]}
    tri2 = {"shell": [(f(-3), f(-2)), (f(8), f(4)), (f(-3), f(10))]}
    hole = {"shell": box(-2, -2, 18, 10)["shell"], "holes": [box(2, 2, 6, 6)["shell"]]}
    hole2 = {"shell": box(-2, -2, 18, 10)["shell"], "holes": [box(4, 2, 12, 5)["shell"], box(1, 6, 3, 7)["shell"]]}
    multi = [box(1, 1, 3, 3), box(9, 2, 14, 6)]
    multi2 = [box(-4, -4, 8, 8), box(8, -4, 20, 0)]
    multi3 = [box(0, 0, 8, 8), box(12, 0, 16, 8)]
    return [[tri], [tri2], [hole], [hole2], multi, multi2, multi3]


def table_list(tier):
    """Every table case, lazily: (loader, rows, agg, fill, files, region, value, name)."""
    bs = lattice_boxes()
    whole = box(-4, -4, 20, 12)
    # one rectangle, everywhere
    for k, b in enumerate(bs):
        for agg in AGGS:
            yield "lut_csv", [([b], 3.0)], agg, None, 1, "REG", None, None
        yield "lut_csv", [([b], 3.0)], "MEAN", FILLS[k % 4], 1, "REG", None, None
        yield "lut_geojson", [([b], None)], ("MEAN", "MAX", "MIN")[k % 3], FILLS[k // 3 % 4], 1, "REG", 2.5, "z"
        yield "lut_geojson", [([b], None)], ("MEAN", "MAX", "MIN", "STD")[k % 4], None, 1, "REG", bool(k % 2), None
        yield "scotland_ncmpa", [([b], None)], ("MAX", "MEAN", "MIN")[k % 3], None, 1, "REG", None, (None, "mpa")[k // 3 % 2]
        if k % 5 == 0 or tier != "quick":
            yield "lut_shapefile", [([b], None)], AGGS[k % 6], None, 1, "REG", 4, (None, "s")[k % 2]
    # a background and one rectangle over it, adjacent rectangles, overlaps: different values so that weights matter
    for k, b in enumerate(bs):
        for agg in AGGS:
            yield "lut_csv", [([whole], 2.0), ([b], (7.0, -1.0, 2.0)[k % 3])], agg, None, 1 + k % 2, "REG", None, None
    step = 7 if tier == "quick" else 1
    pairs = list(itertools.combinations(range(len(bs)), 2))[::step]
    for k, (i, j) in enumerate(pairs):
        yield ("lut_csv", [([bs[i]], 1.0), ([bs[j]], 4.0)], AGGS[k % 6], None, 1 + k % 2, "REG", None, None)
    # tilings of the region into three: no undefined rest
    for x in (2, 4, 8, 10, 12):
        for y in (2, 4, 6):
            for agg in AGGS:
                yield ("lut_csv", [([box(-4, -4, x, 12)], 1.0), ([box(x, -4, 20, y)], 4.0), ([box(x, y, 20, 12)], 10.0)], agg, None,
                       1, "REG", None, None)
    for ps in special_polys():
        for agg in AGGS:
            yield "lut_csv", [(ps, 3.0)], agg, None, 1, "REG", None, None
            if len(ps) == 1:
                yield "lut_csv", [([whole], 1.0), (ps, 3.0)], agg, None, 2, "REG", None, None
            yield "lut_geojson", [(ps, None)], agg, None, 1, "REG", True, None
        yield "scotland_ncmpa", [(ps, None)], "MEAN", None, 1, "REG", None, None
    # around the antimeridian
    for lo in (168, 172, 174, 178, 180):
        for hi in (-180, -178, -174, -172, -170):
            ps = ([box(lo, -8, 180, 0)] if lo < 180 else []) + ([box(-180, -8, hi, -4)] if hi > -180 else [])
            for agg in ("MEAN", "MAX", "MIN", "STD"):
                if ps:
                    yield "lut_geojson", [(ps, None)], agg, None, 1, "AM", True, None
                    yield "lut_csv", [([box(-180, -8, 180, 0)], 2.0), (ps, 6.0)], agg, None, 1, "AM", None, None


# ------------------------------------------------------------------ splitting by polygon edges
def edges(rows):
    for polys, _ in rows:
        for p in polys:
            for r in [p["shell"]] + p.get("holes", []):
                yield from zip(r, r[1:] + r[:1])


def crosses(e, r):
    """Does the segment meet the open rectangle?  (rational clipping)"""
    (x0, y0), (x1, y1) = e
    t0, t1 = F(0), F(1)
    for a, d, lo, hi in ((x0, x1 - x0, r[0], r[1]), (y0, y1 - y0, r[2], r[3])):
        if d == 0:
            if not lo < a < hi:
                return False
        else:
            u, v = sorted((F(lo - a) / d, F(hi - a) / d))
            t0, t1 = max(t0, u), min(t1, v)
    return t0 < t1


def split_case(ctx, rows, depth, on, region, loader="lut_csv", lock=None):
    case = {"split": [spec_rows(rows), depth, on, region, loader, lock]}
    with ctx.guard(case, "split"):
        _n[0] += 1
        name = "zone" if loader == "lut_csv" else "dummy_data"
        cond = {"boundary": on}
        if lock is not None:
            cond["split_lock"] = lock
        if loader == "lut_csv":
            params = {"files": [write_csv(rows, f"s{_n[0] % 50}.csv")]}
        else:
            params = {"files": [write_geo(rows, f"s{_n[0] % 50}.geojson")], "value": True}
        params["splitting_conditions"] = [{name: cond}]
        rc = REGS[region]
        cfg = config(rc, [{"loader": loader, "params": params}], depth, 1)
        reg = region_of(cfg)
        doc = build_json(cfg)
        ctx.step()
        obs = Obs(reg, doc)
        es = list(edges(rows))
        want, stack = [], [(c, 0) for c in base_cells(cfg)]
        while stack:
            c, d = stack.pop()
            if on and d < depth and any(crosses(e, r) for e in es for r in rects(reg, c)):
                stack += [(k, d + 1) for k in children(c)]
            else:
                want.append(c)
        got = obs.leaves()
        if obs.errors or got != sorted(want):
            ctx.fail(case, obs.errors[0] if obs.errors else
                     f"cells {sorted(set(got) - set(want))[:3]} instead of {sorted(set(want) - set(got))[:3]}", "split")
        ctx.state((case["split"][1:], len(got)))
        ctx.trace({"case": case}, outcome=len(got))


def split_list(tier):
    t = F(1, 3)
    xs, ys = [x + t for x in (-2, 1, 5, 9, 13)] + [F(50, 3)], [y + t for y in (-2, 1, 4, 6)] + [F(26, 3)]
    bs = [box(a, c, b, d) for a, b in itertools.combinations(xs, 2) for c, d in itertools.combinations(ys, 2)]
    tri = {"shell": [(1 + t, 1 + F(1, 7)), (14 + F(1, 7), 2 + t), (7 + F(1, 5), 6 + t)]}
    for (x0, y0), (x1, y1) in edges([([tri], 0)]):       # no corner of the lattice on an edge
        assert all((x1 - x0) * (y - y0) != (y1 - y0) * (x - x0) for x in range(17) for y in range(9))
    hole = {"shell": box(-2 - t, -2 - t, 18 + t, 10 + t)["shell"], "holes": [box(2 + t, 2 + t, 6 + t, 6 + t)["shell"]]}
    for k, b in enumerate(bs):
        yield [([b], 1.0)], 1 + k % 3, True, "REG", ("lut_csv", "lut_geojson")[k % 2], (None, False, True)[k % 3]
        if k % 4 == 0:
            yield [([b], 1.0)], 2, False, "REG", "lut_csv", None
    for p in (tri, hole):
        for d in (1, 2, 3):
            for lo in ("lut_csv", "lut_geojson"):
                yield [([p], 1.0)], d, True, "REG", lo, None
    for i, j in itertools.combinations(range(len(bs)), 2):
        if (i * 31 + j) % (40 if tier == "quick" else 3) == 0:
            yield [([bs[i]], 1.0), ([bs[j]], 2.0)], 2, True, "REG", "lut_csv", None
    for k, b in enumerate(lattice_boxes()):
        yield [([b], 1.0)], 1 + k % 3, True, "REG", ("lut_csv", "lut_geojson")[k // 3 % 2], None
    for x in (-90, -86, -85, 82, 88, 90):
        for d in (1, 2, 3):
            yield [([box(-12, min(x, 0), 30, max(x, 0))], 1.0)], d, True, "POLES", "lut_csv", None
    for x in (172, 173, 176, 178, 180):
        for d in (1, 2):
            yield [([box(165, -4, x, 0)], 1.0)], d, True, "AM", "lut_csv", None
            yield [([box(-x, -4, -165, 0)], 1.0)], d, True, "AM", "lut_geojson", None
            yield [([box(165, -4, x, 0)], 1.0)], d, True, "AMX", "lut_csv", None
            yield [([box(-x, -4, -165, 0)], 1.0)], d, True, "AMX", "lut_geojson", None
    for d in (1, 2, 3):
        yield [([box(174 + t, -5 - t, 178 + t, -2 - t)], 1.0)], d, True, "AM", "lut_csv", None
        yield [([box(-178 - t, -5 - t, -175 - t, -2 - t)], 1.0)], d, True, "AM", "lut_geojson", None


# ------------------------------------------------------------------ seasonal tables
NS = {12: "wi", 1: "wi", 2: "wi", 3: "sp", 4: "sp", 5: "sp", 6: "su", 7: "su", 8: "su", 9: "au", 10: "au", 11: "au"}
SS = {12: "su", 1: "su", 2: "su", 3: "au", 4: "au", 5: "au", 6: "wi", 7: "wi", 8: "wi", 9: "sp", 10: "sp", 11: "sp"}
DENS = {"su": 875.0, "sp": 900.0, "au": 900.0, "wi": 920.0}
ROSS = {"wi": 0.72, "sp": 0.67, "su": 1.32, "au": 0.82}
THICK = [((-180, -130, -90, 0), ROSS), ((-130, -60, -90, 0), {"wi": 0.65, "sp": 0.79, "su": 2.14, "au": 0.79}),
         ((-60, -45, -90, 0), {"wi": 1.33, "sp": 1.33, "su": 1.20, "au": 1.38}),
         ((-45, 20, -90, 0), {"wi": 0.54, "sp": 0.89, "su": 0.87, "au": 0.44}),
         ((20, 90, -90, 0), {"wi": 0.59, "sp": 0.78, "su": 1.05, "au": 0.45}),
         ((90, 160, -90, 0), {"wi": 0.72, "sp": 0.68, "su": 1.17, "au": 0.75}), ((160, 180, -90, 0), ROSS)]
BALTIC = (12, 32, 54, 66)


def ice_zones(loader):
    """[(rectangles added, rectangles removed, month -> value)]"""
    if loader == "density":
        return [([(-180, 180, 0, 90)], [], lambda m: DENS[NS[m]]), ([(-180, 180, -90, 0)], [], lambda m: DENS[SS[m]])]
    z = [([r], [], lambda m, v=v: v[SS[m]]) for r, v in THICK]
    z.append(([BALTIC], [], lambda m: 0.3))
    z.append(([(-180, 180, 0, 90)], [BALTIC], lambda m: ROSS[NS[m]]))
    return z


def inter(a, b):
    w, h = min(a[1], b[1]) - max(a[0], b[0]), min(a[3], b[3]) - max(a[2], b[2])
    return w * h if w > 0 and h > 0 else 0


def days(t0, t1):
    a, b = datetime.date.fromisoformat(t0), datetime.date.fromisoformat(t1)
    return [a + datetime.timedelta(k) for k in range((b - a).days + 1)]


def ice_case(ctx, loader, rc, t0, t1, agg, name):
    case = {"ice": [loader, rc, t0, t1, agg, name]}
    key = f"{loader}:{agg}"
    with ctx.guard(case, key):
        params = {"aggregate_type": agg}
        if name:
            params["data_name"] = name
        r = region_cfg(*rc, t0=t0, t1=t1)
        cfg = config(r, [{"loader": loader, "params": params}], 0, 1)
        reg = region_of(cfg)
        doc = build_json(cfg)
        ctx.step()
        obs = Obs(reg, doc)
        vals = []
        months = {}
        for d in days(t0, t1):
            months[d.month] = months.get(d.month, 0) + 1
        for i, cell in sorted(obs.cells.items()):
            rs = rects(reg, cell)
            items = []
            for add, sub, val in ice_zones(loader):
                w = sum(inter(q, x) for q in rs for x in add) - sum(inter(q, x) for q in rs for x in sub)
                if w > 0:
                    items += [(val(m), F(w) * n) for m, n in months.items()]
            got = obs.data[i].get(name or loader, "absent")
            vals.append(str(got))
            if agg == "COUNT":
                # one polygon per day and zone over the cell; a zone cut by the antimeridian may count once or twice
                z = sum(1 for add, sub, _ in ice_zones(loader)
                        if sum(inter(q, x) for q in rs for x in add) - sum(inter(q, x) for q in rs for x in sub) > 0)
                n = len(days(t0, t1))
                if len(rs) == 1 and got != z * n:
                    ctx.fail(case, f"{loader} COUNT of cell {rs}: {got!r}, expected {z} zones x {n} days", key)
                    break
                continue
            want = aggregate(items, agg)
            if not same(got, want):
                ctx.fail(case, f"{loader} {agg} from {t0} to {t1}: cell {[tuple(map(float, q)) for q in rs]} has {got!r}, "
                               f"expected {want!r}", key)
                break
        ctx.state((case["ice"][0], vals))
        ctx.trace({"case": case}, outcome=vals[:2])


ICE_REGIONS = [(-70, -60, x - 10, x + 10, 10, 10) for x in (-130, -60, -45, 20, 90, 160)] + \
    [(-65, -55, x - 15, x + 15, 30, 10) for x in (-130, -60, 20, 160)] + \
    [(-10, 10, -40, 0, 20, 10), (-15, 15, -40, 0, 20, 30), (50, 70, 10, 40, 10, 10), (54, 66, 12, 32, 20, 12), (48, 60, 0, 36, 12, 12),
     (60, 66, 20, 32, 6, 3), (-70, -60, 170, -170, 10, 10), (-70, -60, 175, -165, 20, 10), (-20, 20, 140, -120, 50, 20),
     (-90, 90, -180, 180, 90, 45), (-80, -60, -70, -40, 5, 10), (70, 90, 150, -150, 30, 20), (0, 20, 0, 20, 10, 10),
     (-20, 0, 0, 40, 20, 10)]
ICE_DAYS = ["2019-11-29", "2019-11-30", "2019-12-01", "2020-02-28", "2020-02-29", "2020-03-01", "2020-05-31", "2020-06-01", "2020-06-15",
            "2020-08-31", "2020-09-01", "2020-11-30", "2020-12-01"]
MONTHS = [(f"2021-{m:02d}-03", f"2021-{m:02d}-11") for m in range(1, 13)]


def ice_list(tier):
    periods = list(itertools.combinations_with_replacement(ICE_DAYS, 2))
    for loader in ("density", "thickness"):
        for k, rc in enumerate(ICE_REGIONS):
            ps = MONTHS + (periods[k % 6::6] if tier == "quick" else periods)
            for j, (t0, t1) in enumerate(ps):
                if tier == "quick" and (datetime.date.fromisoformat(t1) - datetime.date.fromisoformat(t0)).days > 130:
                    continue
                aggs = (AGGS[(j + k) % 6],) if tier == "quick" else AGGS
                for a in aggs:
                    yield loader, rc, t0, t1, a, (None, "ice")[(j // 2) % 2]


def tasks(tier):
    t = []
    for kind, gen in (("table", table_list), ("split", split_list), ("ice", ice_list)):
        n = sum(1 for _ in gen(tier))
        size = {"table": 40, "split": 20, "ice": 20}[kind]
        t += [{"kind": kind, "lo": lo, "hi": min(n, lo + size)} for lo in range(0, n, size)]
    return t


def run(task, ctx):
    gen, fn = {"table": (table_list, table_case), "split": (split_list, split_case), "ice": (ice_list, ice_case)}[task["kind"]]
    for args in itertools.islice(gen(ctx.tier), task["lo"], task["hi"]):
        if task["kind"] == "table":
            loader, rows, agg, fill, files, region, value, name = args
            table_case(ctx, loader, rows, agg, fill, files, region, value, name)
        else:
            fn(ctx, *args)


def replay_case(case, ctx):
    if "table" in case:
        loader, spec, agg, fill, files, region, value, name = case["table"]
        return table_case(ctx, loader, rows_of(spec), agg, fill, files, region, value, name)
    if "split" in case:
        spec, *rest = case["split"]
        return split_case(ctx, rows_of(spec), *rest)
    loader, rc, *rest = case["ice"]
    return ice_case(ctx, loader, tuple(rc), *rest)
