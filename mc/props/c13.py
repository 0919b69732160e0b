"""C13: the exports (GeoJSON, geometry table, files by format name) carry every cell and value of the mesh."""
import itertools
import json
import math
import os

from mc import env
from mc.builds import REGIONS, rect_list, shape_space, shape_cfg, to_shape
from mc.geom import rect_from_wkt
from mc.meshes import region_cfg, config, region_of, build_env, load, Obs
from mc.sources import is_nan
from mc.props.c08 import doc_same

ID = "C13"
LEVEL = "model_checking"
RULE = ("a state is a mesh document with given values in its cells (or reached by a history of edits and exports); a "
        "transition is one export or edit on the real code; the oracle maps the mesh document to the expected features "
        "value by value")
ASSUMPTIONS = ["boolean values are present in all cells or in none (mixed columns are left open)",
               "number spelling (1 or 1.0) and feature-level ids are left open"]
NAN, INF = float("nan"), float("inf")
ABSENT = "<absent>"
KINDS = [1.5, 0, -2.0, NAN, INF, -INF, None, ABSENT, "x"]
LISTS = [[1.0, 2.0], [3], [0.0, -6.0, 3.0], [1.0, NAN], [INF, 1.0], None, ABSENT, 4.0]
NAMES = ["a", "A", "b c", "1", "idx", "geometry2", "cx2", "type", "properties", "speed"]
OPS = ("update0", "updatelast", "list0", "split0", "splitlast", "reload", "geo", "shp", "file", "layer")
HREG = ("plain", "am_straddle", "globe3", "one")


def bounds(tier):
    return (f"all columns of 3 values over {len(KINDS)} kinds (numbers, zero, NaN, +-inf, null, absent, text), of lists "
            f"({len(LISTS)} kinds) and of booleans, each exported alone (in one wide mesh and as a single layer), on a "
            f"3-cell mesh; geometry of every mesh with <= {1 if tier == 'quick' else 2} splits on {len(REGIONS)} regions; "
            f"every sequence of <= {3 if tier == 'quick' else 4} operations from {OPS} on the meshes of {HREG}")


def three():
    return config(region_cfg(0, 4, -4, 8, 4, 4))


def patterns(which):
    if which == "kinds":
        return list(itertools.product(KINDS, repeat=3))
    if which == "lists":
        return list(itertools.product(LISTS, repeat=3))
    return list(itertools.product([True, False], repeat=3))


def tasks(tier):
    t = []
    for w in ("kinds", "lists", "bools"):
        n = len(patterns(w))
        for lo in range(0, n, 250):
            t.append({"kind": "values", "which": w, "lo": lo, "hi": min(n, lo + 250)})
    for r in REGIONS:
        k = 1 if tier == "quick" else 2
        n = len(shape_space(r, k, 2))
        for lo in range(0, n, 40):
            t.append({"kind": "geometry", "region": r, "k": k, "lo": lo, "hi": min(n, lo + 40)})
    for r in HREG:
        for o in OPS:
            t.append({"kind": "ops", "region": r, "first": o, "len": 3 if tier == "quick" else 4})
    return t


def finite(v):
    return isinstance(v, (int, float)) and not isinstance(v, bool) and math.isfinite(v)


def column(values):
    """Expected exported values of a column, given the values in the document (ABSENT where a cell lacks it)."""
    if all(isinstance(v, bool) for v in values):
        return [1 if v else None for v in values]
    out = []
    for v in values:
        if isinstance(v, list):
            v = math.fsum(v) / len(v) if all(finite(x) for x in v) else None
        elif v == ABSENT or v is None or isinstance(v, float) and not math.isfinite(v):
            v = None
        out.append(v)
    return out


def same(a, b):
    if isinstance(b, str) or b is None:
        return a == b and type(a) is type(b)
    return isinstance(a, (int, float)) and not isinstance(a, bool) and abs(a - b) <= 1e-9 * max(1.0, abs(b))


CORE = ("geometry", "cx", "cy", "dcx", "dcy", "id")


def expected(doc, layer=None):
    cells = doc["cellboxes"]
    names = []
    for c in cells:
        for k in c:
            if k not in CORE and k not in names and (layer is None or k == layer):
                names.append(k)
    cols = {k: column([c.get(k, ABSENT) for c in cells]) for k in names}
    return [(c, {k: cols[k][i] for k in names}) for i, c in enumerate(cells)]


def ring_text(g):
    if g["type"] == "Polygon":
        polys = [g["coordinates"]]
    elif g["type"] == "MultiPolygon":
        polys = g["coordinates"]
    else:
        raise ValueError(f"geometry type {g['type']}")
    if any(len(p) != 1 for p in polys):
        raise ValueError("polygon with holes")
    txt = ["((" + ", ".join(f"{x!r} {y!r}" for x, y in p[0]) + "))" for p in polys]
    return "POLYGON " + txt[0] if g["type"] == "Polygon" else "MULTIPOLYGON (" + ", ".join(txt) + ")"


def geo_errors(reg, doc, gj, layer=None):
    errs = []
    text = json.dumps(gj)
    if "NaN" in text or "Infinity" in text:
        errs.append("the export is not valid JSON (NaN or Infinity)")
    if gj.get("type") != "FeatureCollection":
        return [f"type {gj.get('type')!r}"]
    exp = expected(doc, layer)
    fs = gj["features"]
    if len(fs) != len(exp):
        return [f"{len(fs)} features for {len(exp)} cells"]
    byid = {}
    for f in fs:
        if f.get("type") != "Feature":
            errs.append(f"feature type {f.get('type')!r}")
        byid.setdefault(int(f["properties"]["id"]), []).append(f)
    for c, vals in exp:
        f = byid.get(int(c["id"]), [])
        if len(f) != 1:
            errs.append(f"cell {c['id']} has {len(f)} features")
            continue
        p = {k: v for k, v in f[0]["properties"].items() if k != "id"}
        if set(p) != set(vals):
            errs.append(f"cell {c['id']} exports names {sorted(p)[:6]}, expected {sorted(vals)[:6]}")
            continue
        bad = [k for k in vals if not same(p[k], vals[k])]
        if bad:
            k = bad[0]
            errs.append(f"cell {c['id']} exports {k}={p[k]!r}, expected {vals[k]!r} (document {c.get(k, ABSENT)!r})")
        try:
            r = rect_from_wkt(reg, ring_text(f[0]["geometry"]))
            if r != rect_from_wkt(reg, c["geometry"]):
                errs.append(f"cell {c['id']} exported as {r}, is {c['geometry']}")
        except (ValueError, KeyError, TypeError) as e:
            errs.append(f"cell {c['id']}: {e}")
    return errs


def shapely_errors(reg, doc, t):
    errs = []
    exp = {int(c["id"]): c for c in doc["cellboxes"]}
    if sorted(int(i) for i in t.index) != sorted(exp):
        return [f"table rows {list(t.index)[:8]} are not the cells"]
    if t.crs is None or t.crs.to_epsg() != 4326:
        errs.append(f"coordinate system {t.crs}")
    for i, row in zip(t.index, t.to_dict("records")):
        c = exp[int(i)]
        r = rect_from_wkt(reg, row["geometry"].wkt)
        if r != rect_from_wkt(reg, c["geometry"]):
            errs.append(f"table: cell {i} is {r}, expected {c['geometry']}")
        for k, v in c.items():
            if k in ("id", "geometry"):
                continue
            g = row.get(k)
            if isinstance(v, float) and is_nan(v) or v is None:
                ok = g is None or isinstance(g, float) and is_nan(g)
            else:
                ok = g == v
            if not ok:
                errs.append(f"table: cell {i} {k}={g!r}, expected {v!r}")
    return errs


def write_params(layer):
    p = os.path.join(env.scratch(), "layer.json")
    with open(p, "w") as f:
        json.dump({"data_name": layer}, f)
    return p


def values_case(ctx, which, pats, base, wide):
    """`pats`: columns; `wide` puts all of them into one mesh."""
    reg = region_of(three())
    case = {"which": which, "wide": wide, "columns": [list(map(repr, p)) for p in pats[:3]], "n": len(pats)}
    with ctx.guard(case, "values"):
        m = load(base)
        names = [f"c{i}" for i in range(len(pats))] if wide else [NAMES[(hash_of(pats[0])) % len(NAMES)]]
        for i in range(3):
            m.update_cellbox(i, {n: p[i] for n, p in zip(names, pats) if not (isinstance(p[i], str) and p[i] == ABSENT)})
        before = m.to_json()
        gj = m.to_geojson()
        ctx.step()
        errs = geo_errors(reg, before, gj)
        if not wide:
            lay = m.to_geojson(write_params(names[0]))
            ctx.step()
            errs += ["layer: " + e for e in geo_errors(reg, before, lay, names[0])]
            # layers whose names contain each other
            for i in range(3):
                m.update_cellbox(i, {names[0] + "_max": float(i), names[0][0]: 10.0 + i} if len(names[0]) > 1 else {names[0] + "_max": float(i)})
            before = m.to_json()
            for n in (names[0] + "_max", names[0], names[0][0]):
                e = geo_errors(reg, before, m.to_geojson(write_params(n)), n)
                ctx.step()
                errs += [f"layer {n} beside {names[0]}: {x}" for x in e]
            if not any(isinstance(v, list) for p in pats for v in p):
                errs += shapely_errors(reg, before, m.to_shapely())
                ctx.step()
        if not doc_same(before, m.to_json()):
            errs.append("exporting modified the mesh")
        if errs:
            ctx.fail(case, "; ".join(errs[:3]), "values")
        for p in pats:
            ctx.state((which, repr(p)))
        ctx.trace({"case": case}, outcome=repr([f["properties"].get(names[0]) for f in gj["features"]]))


def hash_of(p):
    return sum(ord(c) * (i + 1) for i, c in enumerate(repr(p)))


def geometry_case(ctx, rname, shape):
    case = {"region": rname, "shape": rect_list(shape)}
    with ctx.guard(case, "geometry"):
        cfg = shape_cfg(REGIONS[rname], shape)
        reg = region_of(cfg)
        m = build_env(cfg)
        doc = m.to_json()
        errs = geo_errors(reg, doc, m.to_geojson()) + shapely_errors(reg, doc, m.to_shapely())
        errs += files(m, doc)
        ctx.step(3)
        if not doc_same(doc, m.to_json()):
            errs.append("exporting modified the mesh")
        if errs:
            ctx.fail(case, "; ".join(errs[:3]), "geometry")
        ctx.state((rname, case["shape"]))
        ctx.trace({"case": case}, outcome=len(doc["cellboxes"]))


def files(m, doc):
    errs = []
    gj = m.to_geojson()
    for i, fmt in enumerate(("JSON", "json", "Json", None, "GEOJSON", "geojson", "GeoJSON", "xyz", "JSONX")):
        p = os.path.join(env.scratch(), f"out{i}")
        if os.path.exists(p):
            os.remove(p)
        m.save(p) if fmt is None else m.save(p, fmt)
        if fmt in ("xyz", "JSONX"):
            if os.path.exists(p):
                errs.append(f"the unsupported format {fmt} wrote a file")
            continue
        with open(p) as f:
            got = json.load(f)
        want = gj if fmt and fmt.upper() == "GEOJSON" else doc
        if not doc_same(got, want):
            errs.append(f"file written in format {fmt} differs from the export")
    return errs


def ops_case(ctx, rname, ops, base):
    case = {"region": rname, "ops": list(ops)}
    with ctx.guard(case, "ops"):
        reg = region_of(config(REGIONS[rname]))
        m = load(base)
        errs = []
        for n, o in enumerate(ops):
            cells = m.to_json()["cellboxes"]
            if o == "update0":
                m.update_cellbox(0, {"speed": n + 0.5, "note": "x", "lost": NAN})
            elif o == "updatelast":
                m.update_cellbox(len(cells) - 1, {"speed": -n, "blocked": None, "lost": -INF})
            elif o == "list0":
                m.update_cellbox(0, {"speeds": [n, 1.0, 2.0, 5.0]})
            elif o == "split0":
                m.split_and_replace(m.agg_cellboxes[0].get_id())
            elif o == "splitlast":
                m.split_and_replace(m.agg_cellboxes[-1].get_id())
            elif o == "reload":
                m = load(m.to_json())
            elif o == "geo":
                m.to_geojson()
            elif o == "shp":
                m.to_shapely()
            elif o == "layer":
                m.to_geojson(write_params("drv"))
            elif o == "file":
                m.save(os.path.join(env.scratch(), "o.json"), "GEOJSON")
            ctx.step()
            doc = m.to_json()
            if o in ("geo", "shp", "layer", "file") and not doc_same({"cellboxes": cells}, {"cellboxes": doc["cellboxes"]}):
                errs.append(f"{o} modified the mesh")
            errs += geo_errors(reg, doc, m.to_geojson())
            errs += ["layer: " + e for e in geo_errors(reg, doc, m.to_geojson(write_params("drv")), "drv")]
            if errs:
                break
        if errs:
            ctx.fail(case, f"after {list(ops[:n + 1])}: " + "; ".join(errs[:3]), "ops")
        ctx.state((rname, json.dumps(doc["cellboxes"], sort_keys=True)))
        ctx.trace({"case": case}, outcome=len(doc["cellboxes"]))


def base_doc(rname):
    shape = to_shape(sorted(shape_space(rname, 1, 2), key=len)[-1])
    return build_env(shape_cfg(REGIONS[rname], shape)).to_json()


def run(task, ctx):
    k = task["kind"]
    if k == "values":
        base = build_env(three()).to_json()
        ps = patterns(task["which"])[task["lo"]:task["hi"]]
        values_case(ctx, task["which"], ps, base, True)
        for p in ps:
            values_case(ctx, task["which"], [p], base, False)
    elif k == "geometry":
        for s in shape_space(task["region"], task["k"], 2)[task["lo"]:task["hi"]]:
            geometry_case(ctx, task["region"], to_shape(s))
    else:
        base = base_doc(task["region"])
        for n in range(task["len"]):
            for rest in itertools.product(OPS, repeat=n):
                ops_case(ctx, task["region"], (task["first"],) + rest, base)
