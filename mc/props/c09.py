"""C09: a mesh survives being written and read back, and documents and meshes are independent of each other."""
import copy
import itertools
import json
import os

from mc import env
from mc.builds import DECIMAL, REGIONS, all_regions, rect_list, shape_space, shape_cfg, to_shape
from mc.geom import Rect
from mc.meshes import (region_cfg, config, region_of, base_cells, children, build_env, load, Obs, abs_long,
                       driver_source)
from mc.sources import table, is_nan
from mc.props.c07 import find, values_equal
from mc.props.c08 import doc_same

ID = "C09"
LEVEL = "model_checking"
RULE = ("a state is the mesh document after a history of edits, exports, file round trips and reloads; a transition "
        "is one such operation on the real code; the oracle is a plain dictionary model of cells and values, and every "
        "document handed out earlier must still read as it did")
ASSUMPTIONS = ["edits are made on loaded meshes"]
HREG = ("plain", "am_straddle", "globe3", "one")
OPS = ("reload", "file", "peek", "twin", "split0", "splitlast", "update0", "updatelast", "badupdate")


def bounds(tier):
    n = "3 (4 on plain, am_straddle)" if tier == "quick" else 5
    return (f"round trip of every build with <= {1 if tier == 'quick' else 2} splits on {len(REGIONS)} regions; every "
            f"sequence of <= {n} operations from {OPS} on the meshes of {HREG}")


def hist_len(r, tier):
    if tier == "quick":
        return 4 if r in ("plain", "am_straddle") else 3
    return 5


def tasks(tier):
    quick = tier == "quick"
    t = []
    for r in list(REGIONS) + list(DECIMAL):
        n = len(shape_space(r, 1 if quick else 2, 2))
        for lo in range(0, n, 30):
            t.append({"kind": "trip", "region": r, "k": 1 if quick else 2, "lo": lo, "hi": min(n, lo + 30)})
    for r in HREG:
        for o in OPS:
            t.append({"kind": "ops", "region": r, "first": o, "len": hist_len(r, tier)})
    return t


EXTRAS = [None, 0, "", "text", False, True, [1.0, 2.5], [], [[1], [None]], {"a": 1}, -1.5, 10 ** 12, float("nan")]


def source_cfg(rname, shape):
    region = all_regions()[rname]
    cfg0 = config(region)
    reg = region_of(cfg0)
    bases = base_cells(cfg0)
    # values that stress text round trips: fractions, large, negative, missing
    vals = [1 / 3, -2.5e-7, 1.0e15, None, 0.1, -0.0, 7.0]
    pts = [(r.y + r.h / 8, abs_long(reg, r.x + r.w / 8), vals[i % len(vals)]) for i, r in enumerate(bases)]
    return config(region, [driver_source(reg, shape), table("val", pts, value_fill_types="parent"),
                           table("zero", pts, agg="COUNT")], 2)


def trip(ctx, rname, shape):
    case = {"region": rname, "shape": rect_list(shape)}
    with ctx.guard(case, "trip"):
        cfg = source_cfg(rname, shape)
        reg = region_of(cfg)
        m = build_env(cfg)
        j = m.to_json()
        ctx.step()
        j0 = copy.deepcopy(j)
        o = Obs(reg, j)
        errs = []
        if not doc_same(j, m.to_json()):
            errs.append("two exports of one mesh differ")
        # the document alone describes the mesh: reload from the object, from text and from a file
        p = os.path.join(env.scratch(), "trip.json")
        m.save(p)
        with open(p) as f:
            jf = json.load(f)
        for how, doc in (("object", j), ("text", json.loads(json.dumps(j))), ("file", jf)):
            if not doc_same(doc, j0):
                errs.append(f"{how}: the written document differs from to_json()")
            m2 = load_direct(doc)
            ctx.step()
            j2 = m2.to_json()
            if not doc_same(j2, j0):
                errs.append(f"{how}: reloaded mesh differs: {diff(j0, j2)}")
        # further values of any JSON kind in the cells of a document survive as they are
        jx = copy.deepcopy(j0)
        for n, c in enumerate(jx["cellboxes"]):
            c.update({k: EXTRAS[(n + q) % len(EXTRAS)] for q, k in enumerate(("x1", "x2", "x3"))})
        jx = json.loads(json.dumps(jx))
        want = copy.deepcopy(jx)
        j2 = load_direct(jx).to_json()
        ctx.step()
        if not doc_same(j2, want):
            errs.append(f"enriched document: reloaded mesh differs: {diff(want, j2)}")
        if not doc_same(jx, want):
            errs.append("loading modified the enriched document")
        if not doc_same(j, j0):
            errs.append("loading modified the document")
        # the loaded mesh answers like the document says
        for cb in load_direct(j).agg_cellboxes:
            b = cb.get_bounds()
            r = reg.rect(b.get_long_min(), b.get_long_max(), b.get_lat_min(), b.get_lat_max())
            i = int(cb.get_id())
            if o.cells.get(i) != r:
                errs.append(f"cell {i} reloaded as {r}, was {o.cells.get(i)}")
                break
            if not values_equal({k: v for k, v in cb.get_agg_data().items() if k != "id"}, o.data[i]):
                errs.append(f"cell {i} reloaded with {cb.get_agg_data()}, was {o.data[i]}")
                break
        if set(json.loads(json.dumps(cfg["region"]))) - set(j["config"]["mesh_info"]["region"]):
            errs.append("the configuration is incomplete")
        for k in ("lat_min", "lat_max", "long_min", "long_max", "cell_width", "cell_height", "start_time", "end_time"):
            if j["config"]["mesh_info"]["region"][k] != cfg["region"][k]:
                errs.append(f"configuration {k} changed")
        if errs:
            ctx.fail(case, "; ".join(errs[:3]), "roundtrip")
        ctx.state((rname, case["shape"]))
        ctx.trace({"case": case}, outcome=len(o.cells))


def diff(a, b):
    for k in a:
        if not doc_same(a[k], b.get(k)):
            if isinstance(a[k], list):
                for x, y in zip(a[k], b.get(k, [])):
                    if not doc_same(x, y):
                        return f"{k}: {x} -> {y}"
            return f"{k}: {str(a[k])[:200]} -> {str(b.get(k))[:200]}"
    return "?"


def load_direct(doc):
    from meshiphi.mesh_generation.environment_mesh import EnvironmentMesh
    return EnvironmentMesh.load_from_json(doc)


_START = {}


def start(rname):
    if rname not in _START:
        cfg = source_cfg(rname, frozenset())
        j = build_env(cfg).to_json()
        # attributes as later stages attach them
        j["cellboxes"][0]["fuel"] = [1.5, 2.5]
        j["cellboxes"][-1]["land"] = True
        _START[rname] = (region_of(cfg), j)
    return _START[rname]


def ops_case(ctx, rname, ops):
    case = {"region": rname, "ops": list(ops)}
    reg, j0 = start(rname)
    with ctx.guard(case, "ops"):
        doc = copy.deepcopy(j0)
        m = load_direct(doc)
        kept = [(doc, copy.deepcopy(doc))]          # documents handed in or out, with their content then
        o = Obs(reg, j0)
        order = [o.cells[int(c["id"])] for c in j0["cellboxes"]]
        data = {o.cells[int(c["id"])]: copy.deepcopy(o.data[int(c["id"])]) for c in j0["cellboxes"]}
        errs = []
        for n, op in enumerate(ops):
            ctx.step()
            if op in ("reload", "peek", "twin", "file"):
                d = m.to_json()
                kept.append((d, copy.deepcopy(d)))
                if op == "reload":
                    m = load_direct(d)
                elif op == "file":
                    p = os.path.join(env.scratch(), "ops.json")
                    m.save(p)
                    with open(p) as f:
                        d2 = json.load(f)
                    if not doc_same(d, d2):
                        errs.append("the saved file differs from to_json()")
                    m = load_direct(d2)
                    kept.append((d2, copy.deepcopy(d2)))
                elif op == "peek":
                    e = m.to_json()
                    e["cellboxes"][0]["val"] = "scribble"
                    e["neighbour_graph"][list(e["neighbour_graph"])[0]]["2"].append(12345)
                    e["config"]["mesh_info"]["region"]["lat_min"] = -1000
                    e["cellboxes"].pop()
                else:
                    t = load_direct(d)
                    t.update_cellbox(0, {"val": 99.0})
                    t.agg_cellboxes[-1].agg_data["added"] = 1
                    t.split_and_replace(str(t.agg_cellboxes[0].get_id()))
                    t.config["region"]["lat_max"] = 1000
            elif op in ("split0", "splitlast"):
                r = order[0] if op == "split0" else order[-1]
                m.split_and_replace(str(find(m, reg, r)))
                order.remove(r)
                dd = data.pop(r)
                for c in children(r):
                    data[c] = copy.deepcopy(dd)
                # the order of the new cells is the mesh's business
                order = [reg.rect(b.get_long_min(), b.get_long_max(), b.get_lat_min(), b.get_lat_max())
                         for b in (cb.get_bounds() for cb in m.agg_cellboxes)]
            elif op in ("update0", "updatelast"):
                i = 0 if op == "update0" else len(order) - 1
                v = {"speed": [float(n), 1.0], "val": n + 0.5} if op == "update0" else {"flag": False, "fuel": float(n)}
                m.update_cellbox(i, copy.deepcopy(v))
                data[order[i]].update(v)
            else:
                for i in (-1, len(order), len(order) + 3):
                    try:
                        m.update_cellbox(i, {"val": -77.0})
                        errs.append(f"update_cellbox({i}) on {len(order)} cells did not raise")
                    except ValueError:
                        pass
        j = m.to_json()
        ob = Obs(reg, j)
        errs += ob.tiling() + ob.adjacency_errors()
        by = ob.by_rect()
        if not errs:
            if set(by) != set(data):
                errs.append("the set of cells differs from the model")
            else:
                for r, d in data.items():
                    if not values_equal(ob.data[by[r]], d):
                        errs.append(f"cell {tuple(r)}: {ob.data[by[r]]}, expected {d}")
                        break
        if not doc_same(j["config"], j0["config"]):
            errs.append("the configuration changed")
        for n, (d, was) in enumerate(kept):
            if not doc_same(d, was):
                errs.append(f"document {n} changed after it was handed over: {diff(was, d)}")
        if errs:
            ctx.fail(case, "; ".join(errs[:3]), "model")
        ctx.state((rname, sorted((tuple(r), sorted(map(str, d.items()))) for r, d in data.items())))
        ctx.trace({"case": case}, outcome=len(by))


def run(task, ctx):
    if task["kind"] == "trip":
        for s in shape_space(task["region"], task["k"], 2)[task["lo"]:task["hi"]]:
            trip(ctx, task["region"], s)
        return
    for n in range(task["len"]):
        for rest in itertools.product(OPS, repeat=n):
            ops_case(ctx, task["region"], (task["first"],) + rest)


def replay_case(case, ctx):
    if "task" in case:
        return run(case["task"], ctx)
    if "ops" in case:
        return ops_case(ctx, case["region"], case["ops"])
    trip(ctx, case["region"], to_shape(case["shape"]))
