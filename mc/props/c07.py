"""C07: splitting cells of a finished mesh keeps it a correct mesh."""
import itertools

from mc.builds import DECIMAL, REGIONS, all_regions, rect_list, shape_cfg, to_shape
from mc.geom import plain, to_rect
from mc.meshes import (config, region_of, base_cells, children, build_json, load, Obs, abs_long, driver_source)
from mc.sources import table, same, is_nan

ID = "C07"
LEVEL = "model_checking"
RULE = ("a state is the mesh document (rectangles, adjacency, values) after a history of splits of a loaded mesh; a "
        "transition is one split_and_replace / split_points call on the real code; in every state the oracle checks "
        "exact tiling, exact adjacency, inherited values and untouched other cells")
ASSUMPTIONS = ["meshes are loaded from their JSON document, as documented for post-processing",
               "points on the antimeridian itself are not used for splitting"]


def bounds(tier):
    return (f"every ordered history of <= {'3 (4 on plain, am_straddle, one)' if tier == 'quick' else '4 (5 on one)'} "
            f"splits of the built grid of each of {len(REGIONS)} regions, and of <= 2 splits of every mesh with one cell already split; every sequence "
            "of 1..2 points of the quarter-cell lattice for split_points at depths 0..2")


def depth_for(r, n, quick):
    if quick:
        if r in DECIMAL:
            return 2
        return 4 if r in ("plain", "am_straddle", "one") else 3
    return 5 if n == 1 else 4


def tasks(tier):
    quick = tier == "quick"
    t = []
    for r, cfg in list(REGIONS.items()) + [(d, DECIMAL[d]) for d in DECIMAL if d != "dec_globe"]:
        b = base_cells(config(cfg))
        n = depth_for(r, len(b), quick)
        for i in range(len(b)):
            t.append({"kind": "hist", "region": r, "pre": [], "first": i, "len": n})
        for i in range(len(b)):
            t.append({"kind": "hist", "region": r, "pre": [plain(b[i])], "first": None, "len": 2})
    for r in ("plain", "one", "am_straddle", "am_edge", "globe3", "am_180", "dec_origin", "dec_straddle") if quick \
            else list(REGIONS) + [d for d in DECIMAL if d != "dec_globe"]:
        for d in (0, 1, 2):
            t.append({"kind": "points", "region": r, "depth": d})
    return t


_DOC = {}


def document(rname, pre, depth=None):
    """A built mesh with distinct values per initial cell."""
    key = (rname, str(pre), depth)
    if key not in _DOC:
        region = all_regions()[rname]
        cfg0 = config(region)
        reg = region_of(cfg0)
        shape = to_shape(pre)
        pts = [(r.y + r.h / 8, abs_long(reg, r.x + r.w / 8), float(i + 1)) for i, r in enumerate(base_cells(cfg0))]
        src = [driver_source(reg, shape), table("val", pts)]
        cfg = config(region, src, depth if depth is not None else (1 if shape else 0))
        if depth is not None:
            # depth of later point splitting; nothing is split by the build
            src[0] = table("drv", pts)
            cfg = config(region, src, depth)
        j = build_json(cfg)
        _DOC[key] = (reg, cfg, j)
    return _DOC[key]


def find(m, reg, rect):
    for cb in m.agg_cellboxes:
        b = cb.get_bounds()
        if reg.rect(b.get_long_min(), b.get_long_max(), b.get_lat_min(), b.get_lat_max()) == rect:
            return cb.get_id()
    return None


def values_equal(a, b):
    if set(a) != set(b):
        return False
    return all(a[k] == b[k] or (is_nan(a[k]) and is_nan(b[k])) for k in a)


def judge(ctx, case, reg, m, want, before, split):
    """want: expected {rect: data}; before: {rect: id} of the untouched cells."""
    j = m.to_json()
    o = Obs(reg, j)
    errs = o.tiling() + o.adjacency_errors()
    by = o.by_rect()
    if not errs and set(by) != set(want):
        errs.append(f"cells missing {rect_list(set(want) - set(by))[:3]}, extra {rect_list(set(by) - set(want))[:3]}")
    if not errs:
        for r, d in want.items():
            if not values_equal(o.data[by[r]], d):
                errs.append(f"values of cell {tuple(r)}: {o.data[by[r]]}, expected {d}")
                break
            if r in before and by[r] != before[r]:
                errs.append(f"cell {tuple(r)} was renumbered from {before[r]} to {by[r]}")
                break
    if errs:
        ctx.fail(case, "; ".join(errs[:4]), "split")
    ctx.state((case["region"], sorted((tuple(r), tuple(sorted(map(str, o.data[i].items())))) for r, i in by.items())))
    ctx.trace({"case": case, "cells": len(by)}, outcome=len(by))
    return j


def history(ctx, rname, pre, hist):
    case = {"region": rname, "pre": pre, "history": [plain(h) for h in hist]}
    reg, cfg, j0 = document(rname, pre)
    with ctx.guard(case, "history"):
        m = load(j0)
        o = Obs(reg, j0)
        want = {r: o.data[i] for r, i in o.by_rect().items()}
        before = dict(o.by_rect())
        for h in hist:
            i = find(m, reg, h)
            if i is None:
                ctx.fail(case, f"cell {tuple(h)} does not exist", "split")
                return
            m.split_and_replace(str(i))
            ctx.step()
            d = want.pop(h)
            before.pop(h, None)
            for c in children(h):
                want[c] = d
        judge(ctx, case, reg, m, want, before, hist)


def points_case(ctx, rname, depth, pts):
    case = {"region": rname, "depth": depth, "points": [plain(p) for p in pts]}
    reg, cfg, j0 = document(rname, [], depth)
    b0 = base_cells(cfg)[0]
    cw, ch = b0.w, b0.h
    with ctx.guard(case, "points"):
        m = load(j0)
        o = Obs(reg, j0)
        want = {r: o.data[i] for r, i in o.by_rect().items()}
        before = dict(o.by_rect())
        for lat, x in pts:
            while True:
                inside = [r for r in want if r.y < lat < r.y + r.h and r.x < x < r.x + r.w]
                if not inside or inside[0].w <= cw / 2 ** depth or inside[0].h <= ch / 2 ** depth:
                    break
                d = want.pop(inside[0])
                before.pop(inside[0], None)
                for c in children(inside[0]):
                    want[c] = d
        m.split_points([(float(lat), abs_long(reg, x)) for lat, x in pts])
        ctx.step()
        judge(ctx, case, reg, m, want, before, pts)


def lattice(reg, cfg):
    """Interior and edge positions at quarter cells in two diagonally opposite initial cells, and outside."""
    cells = base_cells(cfg)
    out = []
    if reg.decimal:         # off the edges, which are known up to rounding only
        return [(c.y + c.h * fy / 8, c.x + c.w * fx / 8) for c in (cells[0], cells[-1])
                for fx, fy in itertools.product((1, 3, 7), (1, 5))]
    for c in {cells[0], cells[-1]}:
        for fx, fy in itertools.product((1 / 8, 1 / 4, 1 / 2, 1), (1 / 8, 1 / 4, 5 / 8)):
            out.append((c.y + c.h * fy, c.x + c.w * fx))
    if reg.lat_max + 1 <= 90:
        out.append((reg.lat_max + 1.0, cells[0].x + 1.0))
    return [p for p in sorted(out) if (reg.long_min + p[1]) % 360 != 180]


def run(task, ctx):
    if task["kind"] == "points":
        region = all_regions()[task["region"]]
        cfg = config(region)
        ps = lattice(region_of(cfg), cfg)
        for p in ps:
            points_case(ctx, task["region"], task["depth"], [p])
        step = 1 if ctx.tier != "quick" else 2
        for p, q in itertools.product(ps[::step], repeat=2):
            points_case(ctx, task["region"], task["depth"], [p, q])
        return
    reg, cfg, j0 = document(task["region"], task["pre"])
    start = Obs(reg, j0).leaves()
    bases = base_cells(config(all_regions()[task["region"]]))

    def rec(hist, leaves):
        if hist:
            history(ctx, task["region"], task["pre"], hist)
        if len(hist) < task["len"]:
            for i, c in enumerate(leaves):
                rec(hist + [c], leaves[:i] + leaves[i + 1:] + children(c))
    if task["first"] is None:
        rec([], start)
    else:
        f = bases[task["first"]]
        rec([f], [b for b in bases if b != f] + children(f))


def replay_case(case, ctx):
    if "task" in case:
        return run(case["task"], ctx)
    if "history" in case:
        return history(ctx, case["region"], case["pre"], [to_rect(r) for r in case["history"]])
    points_case(ctx, case["region"], case["depth"], [tuple(p) for p in case["points"]])
