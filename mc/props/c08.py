"""C08: merging a mesh replaces exactly its region and wires the seam."""
import copy
import itertools
import json
from fractions import Fraction

from mc.builds import rect_list
from mc.geom import frac, plain, to_rect
from mc.meshes import (region_cfg, config, region_of, base_cells, children, build_json, load, Obs, abs_long,
                       driver_source)
from mc.sources import table, is_nan
from mc.props.c07 import values_equal, find

ID = "C08"
LEVEL = "model_checking"
RULE = ("a state is the mesh document after a history of merges (and splits) of a loaded mesh; a transition is one "
        "merge_mesh / split_and_replace call on the real code; the oracle computes the expected cells, values and "
        "adjacency from the two documents alone")
ASSUMPTIONS = ["the merged mesh lies inside the region of the mesh it is merged into",
               "widths divide 360 degrees; coordinates are dyadic or decimal"]
OUTER = {
    "plain": region_cfg(-6, 6, -24, 0, 8, 4),
    "greenwich": region_cfg(40, 52, -12, 12, 8, 4),
    "am_edge": region_cfg(-6, 6, 165, -165, 10, 4),
    "am_edge2": region_cfg(-6, 6, 160, -170, 10, 4),
    "am_west": region_cfg(-6, 6, 170, -160, 10, 4),
    "east_end": region_cfg(-6, 6, 150, 180, 10, 4),
    "west_end": region_cfg(-6, 6, -180, -150, 10, 4),
    "globe4": region_cfg(-60, 60, -180, 180, 90, 40),
    "dec": region_cfg(-66.6, -66.3, 10.1, 11.0, 0.3, 0.1),
    "dec_am": region_cfg(-0.3, 0.3, 179.6, -179.8, 0.2, 0.2),
}
# sizes of inner cells that are multiples of the grid's
COARSE = ("2x2", "2x1", "1x2", "3x1", "1x3")
# what is already split in the outer mesh: none, alternating cells, all, nested
PATTERNS1 = ("none", "alt", "oalt", "all", "nest")
PATTERNS2 = ("none", "first", "last", "all", "nest")


def bounds(tier):
    q = tier == "quick"
    return (("quick uses a fixed subset of the pattern pairs on the non-main outer regions; " if q else "") +
            f"{len(OUTER)} outer regions (3-4 x 3 cells) x every sub-rectangle of the grid x inner cell size equal / "
            f"half, and every coarser inner cell (2x2, 2x1, 1x2, 3x1, 1x3) with every cut of a larger cell, x outer split patterns {PATTERNS1} x inner split patterns {PATTERNS2 if not q else PATTERNS2[:4]}; "
            "histories: every ordered pair of 1x1/2x1 inner meshes (disjoint, adjacent, overlapping, repeated), and "
            "merge followed by every single split; merges of meshes that are the product of a merge; every misaligned inner mesh on the half-cell lattice is refused")


def split_pattern(bases, name):
    s = set()
    for i, b in enumerate(bases):
        if name == "all" or (name == "alt" and i % 2 == 0) or (name == "oalt" and i % 2) or \
                (name == "first" and i == 0) or (name == "last" and i == len(bases) - 1) or \
                (name == "nest" and i % 3 == 0):
            s.add(b)
            if name == "nest":
                s.add(children(b)[(i // 3) % 4])
    return s


_DOC = {}


def doc(region, pattern, tag):
    key = (str(region), pattern, tag)
    if key not in _DOC:
        if len(_DOC) > 3000:
            _DOC.clear()
        cfg0 = config(region)
        reg = region_of(cfg0)
        bases = base_cells(cfg0)
        s = split_pattern(bases, pattern)
        pts = [(r.y + r.h / 8, abs_long(reg, r.x + r.w / 8), tag + i) for i, r in enumerate(bases)]
        _DOC[key] = build_json(config(region, [driver_source(reg, s), table("val", pts)], 2))
    return _DOC[key]


def sizes(r1):
    if region_of({"region": r1}).decimal:
        return frac(r1["cell_width"]), frac(r1["cell_height"])
    return r1["cell_width"], r1["cell_height"]


def number(region):
    return {k: float(v) if isinstance(v, Fraction) else v for k, v in region.items()}


def sub(r1, rect, f):
    i, j, w, h = rect
    reg1 = region_of({"region": r1})
    cw, ch = sizes(r1)
    lo, hi = abs_long(reg1, i * cw), abs_long(reg1, (i + w) * cw)
    if lo == 180:
        lo = -180.0
    return number(region_cfg(reg1.lat_min + j * ch, reg1.lat_min + (j + h) * ch, lo, hi, *coarse(cw, ch, f)))


def coarse(cw, ch, f):
    """Cell size of the inner mesh: a fraction of the grid's, or a multiple ("2x1")."""
    if isinstance(f, str):
        a, b = map(int, f.split("x"))
        return cw * a, ch * b
    return cw / f, ch / f


def rects(r1):
    reg1 = region_of({"region": r1})
    cw, ch = sizes(r1)
    nx, ny = round(reg1.W / cw), round(reg1.H / ch)
    return [(i, j, w, h) for w in range(1, nx + 1) for h in range(1, ny + 1)
            for i in range(nx - w + 1) for j in range(ny - h + 1)]


MAIN = ("plain", "am_edge", "globe4")


def tasks(tier):
    t = []
    quick = tier == "quick"
    for o in OUTER:
        n = len(rects(OUTER[o]))
        for p1 in PATTERNS1:
            if quick and (p1 == "oalt" or (p1 in ("nest", "none") and o not in MAIN)):
                continue
            for k in range(3):
                t.append({"kind": "one", "outer": o, "p1": p1, "third": k})
    for o in OUTER if not quick else ("plain", "am_edge", "globe4"):
        t.append({"kind": "two", "outer": o, "order": 0})
        t.append({"kind": "two", "outer": o, "order": 1})
    for o in OUTER:
        t.append({"kind": "split", "outer": o})
        t.append({"kind": "chain", "outer": o})
        t.append({"kind": "refuse", "outer": o})
        for q in COARSE:
            if o == "globe4" and q[0] != "1":
                continue                    # cells of 180 degrees
            t.append({"kind": "coarse", "outer": o, "f": q})
    return t


def state_of(reg1, j):
    o = Obs(reg1, j)
    return {r: o.data[i] for r, i in o.by_rect().items()}


def covered(reg1, r2, c):
    R = reg1.rect(r2["long_min"], r2["long_max"], r2["lat_min"], r2["lat_max"])
    return c.x >= R.x and c.x + c.w <= R.x + R.w and c.y >= R.y and c.y + c.h <= R.y + R.h


def cut(reg1, r2, c):
    """The region covers a part of the cell, but not all of it."""
    R = reg1.rect(r2["long_min"], r2["long_max"], r2["lat_min"], r2["lat_max"])
    return c.x < R.x + R.w and R.x < c.x + c.w and c.y < R.y + R.h and R.y < c.y + c.h and not covered(reg1, r2, c)


def history(ctx, case):
    """case: outer, p1, ops = [["merge", rect, f, p2] | ["split", [rect]]]."""
    r1 = OUTER[case["outer"]]
    reg1 = region_of({"region": r1})
    with ctx.guard(case, "merge"):
        j1 = doc(r1, case["p1"], 100.0)
        m1 = load(j1)
        want = state_of(reg1, j1)
        merged = []
        for op in case["ops"]:
            if op[0] == "merge":
                r2 = sub(r1, tuple(op[1]), op[2])
                j2 = doc(r2, op[3], 200.0 + 50 * len(merged))
                m2 = load(j2)
                if len(op) > 4:             # the second mesh is the product of a merge itself
                    j3 = doc(sub(r2, tuple(op[4]), 1), "first", 500.0)
                    m2.merge_mesh(load(j3))
                    ctx.step()
                    j2 = json.loads(json.dumps(m2.to_json()))
                    if [c["region"] for c in j2["config"]["mesh_info"].get("merged", [])] != \
                            [j3["config"]["mesh_info"]["region"]]:
                        ctx.fail(case, "the configuration of the mesh merged first is not recorded", "merge")
                before = copy.deepcopy(m2.to_json())
                if any(cut(reg1, r2, r) for r in want):
                    # part of a larger cell only: nothing exact can come of it
                    was = copy.deepcopy(m1.to_json())
                    try:
                        m1.merge_mesh(m2)
                        ctx.fail(case, f"a mesh over a part of a larger cell was merged", "cut")
                        return
                    except AssertionError:
                        pass
                    ctx.step()
                    if not doc_same(was, m1.to_json()):
                        ctx.fail(case, "a refused merge modified the mesh", "cut")
                        return
                    continue
                m1.merge_mesh(m2)
                ctx.step()
                if not doc_same(before, m2.to_json()):
                    ctx.fail(case, "the mesh passed to merge_mesh was modified", "argument")
                want = {r: d for r, d in want.items() if not covered(reg1, r2, r)}
                want.update(state_of(reg1, j2))
                merged.append(j2["config"]["mesh_info"])
            else:
                h = to_rect(op[1])
                i = find(m1, reg1, h)
                if i is None:
                    ctx.fail(case, f"cell {h} does not exist", "split")
                    return
                m1.split_and_replace(str(i))
                ctx.step()
                d = want.pop(h)
                for c in children(h):
                    want[c] = d
        j = json.loads(json.dumps(m1.to_json()))
        o = Obs(reg1, j)
        errs = o.tiling() + o.adjacency_errors()
        by = o.by_rect()
        if not errs and set(by) != set(want):
            errs.append(f"cells missing {rect_list(set(want) - set(by))[:3]}, extra {rect_list(set(by) - set(want))[:3]}")
        if not errs:
            for r, d in want.items():
                if not values_equal(o.data[by[r]], d):
                    errs.append(f"values of cell {tuple(r)}: {o.data[by[r]]}, expected {d}")
                    break
        conf = j["config"]["mesh_info"]
        if conf["region"] != j1["config"]["mesh_info"]["region"]:
            errs.append("the region of the mesh changed")
        if [c["region"] for c in conf.get("merged", [])] != [c["region"] for c in merged]:
            errs.append("the configurations of the merged meshes are not recorded in order")
        elif [[d["region"] for d in c.get("merged", [])] for c in conf.get("merged", [])] != \
                [[d["region"] for d in c.get("merged", [])] for c in merged]:
            errs.append("the configurations inside a merged mesh are not recorded")
        if errs:
            ctx.fail(case, "; ".join(errs[:4]), "merge")
        ctx.state((case["outer"], sorted((tuple(r), o.data[i].get("val")) for r, i in by.items())))
        ctx.trace({"case": case, "cells": len(by)}, outcome=len(by))


def doc_same(a, b):
    """Equality of documents where NaN equals NaN."""
    if isinstance(a, dict):
        return isinstance(b, dict) and set(a) == set(b) and all(doc_same(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)):
        return isinstance(b, (list, tuple)) and len(a) == len(b) and all(doc_same(x, y) for x, y in zip(a, b))
    return a == b or (is_nan(a) and is_nan(b))


def refuse(ctx, outer, dx, dy, dw, dh):
    """Inner mesh displaced / sized off the grid by half cells: must be refused, mesh unchanged."""
    case = {"outer": outer, "refuse": [dx, dy, dw, dh]}
    r1 = OUTER[outer]
    reg1 = region_of({"region": r1})
    cw, ch = sizes(r1)
    x0, y0 = cw + dx * cw / 2, reg1.lat_min + ch + dy * ch / 2
    w, h = cw + dw * cw / 2, ch + dh * ch / 2
    lo, hi = abs_long(reg1, x0), abs_long(reg1, x0 + w)
    if lo == 180:
        lo = -180.0
    r2 = number(region_cfg(y0, y0 + h, lo, hi, w, h))
    with ctx.guard(case, "refuse"):
        m1 = load(doc(r1, "none", 100.0))
        m2 = load(doc(r2, "none", 200.0))
        before = copy.deepcopy(m1.to_json())
        try:
            m1.merge_mesh(m2)
            ctx.fail(case, f"a mesh over {lo}:{hi} x {y0}:{y0 + h} that does not fit the grid was merged", "refuse")
        except AssertionError:
            pass
        ctx.step()
        if not doc_same(before, m1.to_json()):
            ctx.fail(case, "a refused merge modified the mesh", "refuse")
        ctx.state(("refuse", outer, dx, dy, dw, dh))
        ctx.trace({"case": case}, outcome="refused")


def run(task, ctx):
    o = task["outer"]
    rs = rects(OUTER[o])
    quick = ctx.tier == "quick"
    if task["kind"] == "one":
        for rect in rs[task["third"]::3]:
            for f in (1, 2):
                for p2 in PATTERNS2:
                    if quick and (p2 == "nest" or (p2 in ("last", "none") and (o not in MAIN or f == 1))):
                        continue
                    if p2 == "last" and rect[2] * rect[3] == 1 and f == 1:
                        continue
                    history(ctx, {"outer": o, "p1": task["p1"], "ops": [["merge", list(rect), f, p2]]})
    elif task["kind"] == "two":
        small = [r for r in rs if (r[2], r[3]) in ((1, 1), (2, 1), (1, 2), (2, 2))]
        if quick:
            small = [r for r in small if (r[2], r[3]) in ((1, 1), (2, 1))]
        for a, b in itertools.product(small, repeat=2):
            if (small.index(a) + small.index(b)) % 2 == task["order"]:
                history(ctx, {"outer": o, "p1": "alt", "ops": [["merge", list(a), 2, "first"],
                                                                ["merge", list(b), 1, "first"]]})
    elif task["kind"] == "chain":
        for rect in [r for r in rs if r[2] * r[3] in (1, 2)]:
            for f in (1, 2):
                for r3 in rects(sub(OUTER[o], rect, f)):
                    if quick and r3[2] * r3[3] > 1:
                        continue
                    ops = [["merge", list(rect), f, "first", list(r3)]]
                    history(ctx, {"outer": o, "p1": "alt", "ops": ops})
                    if r3[:2] == (0, 0):
                        history(ctx, {"outer": o, "p1": "alt", "ops": [["merge", [0, 0, 1, 1], 1, "first"]] + ops})
                        history(ctx, {"outer": o, "p1": "alt", "ops": ops + [["merge", [0, 0, 1, 1], 1, "first", [0, 0, 1, 1]]]})
    elif task["kind"] == "coarse":
        a, b = map(int, task["f"].split("x"))
        for rect in [r for r in rs if r[2] == a and r[3] == b]:
            one = ["merge", list(rect), task["f"], "none"]
            for p1 in ("none", "alt"):
                history(ctx, {"outer": o, "p1": p1, "ops": [one]})
            history(ctx, {"outer": o, "p1": "alt", "ops": [["merge", list(rect), task["f"], "first"]]})
            for r in rs:
                if r[2] * r[3] > 2 and (quick or r[2] * r[3] > 4):
                    continue
                # before, after, and after the coarse cell has been split
                nxt = ["merge", list(r), 1, "first"]
                history(ctx, {"outer": o, "p1": "none", "ops": [one, nxt]})
                if not quick:
                    history(ctx, {"outer": o, "p1": "none", "ops": [["merge", list(rect), task["f"], "first"], nxt]})
                if r[2] * r[3] == 1:
                    history(ctx, {"outer": o, "p1": "none", "ops": [nxt, one]})
            reg1 = region_of({"region": OUTER[o]})
            big = reg1.rect(*[sub(OUTER[o], rect, 1)[k] for k in ("long_min", "long_max", "lat_min", "lat_max")])
            history(ctx, {"outer": o, "p1": "alt", "ops": [one, ["split", plain(big)]]})
    elif task["kind"] == "split":
        r1 = OUTER[o]
        reg1 = region_of({"region": r1})
        for rect in ((1, 1, 1, 1), (0, 0, 1, 2), (1, 0, 2, 1), (0, 2, 1, 1), (2, 1, 1, 2)):
            j1 = doc(r1, "alt", 100.0)
            r2 = sub(r1, rect, 2)
            want = [r for r in state_of(reg1, j1) if not covered(reg1, r2, r)] + \
                list(state_of(reg1, doc(r2, "first", 200.0)))
            for h in sorted(want):
                history(ctx, {"outer": o, "p1": "alt", "ops": [["merge", list(rect), 2, "first"], ["split", plain(h)]]})
    else:
        for dx, dy, dw, dh in itertools.product((-1, 0, 1), (-1, 0, 1), (-1, 0, 1), (-1, 0, 1)):
            if (dx, dy, dw, dh) != (0, 0, 0, 0):
                refuse(ctx, o, dx, dy, dw, dh)


def replay_case(case, ctx):
    if "task" in case:
        return run(case["task"], ctx)
    if "refuse" in case:
        return refuse(ctx, case["outer"], *case["refuse"])
    history(ctx, case)
