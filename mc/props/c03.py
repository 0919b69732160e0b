"""C03: cells are refined exactly as the splitting conditions demand."""
import itertools

from mc.builds import rect_list
from mc.geom import Rect
from mc.meshes import region_cfg, config, region_of, base_cells, children, build_json, Obs, abs_long
from mc.sources import table, grid

ID = "C03"
LEVEL = "model_checking"
RULE = ("a state is (data pattern in an initial cell, splitting configuration) -> subdivision of that cell; a "
        "transition is one build of the real code over a grid of initial cells, each carrying another pattern of "
        "the enumeration; the oracle is the recursive splitting rule evaluated on the raw data")
ASSUMPTIONS = ["0 <= lower_bound <= upper_bound <= 1", "patterns in which only missing values decide whether the "
               "minimum number of datapoints is reached are left out", "data points lie strictly inside cells"]
# batches of initial cells; the pattern number rotates through the positions
GRIDS = {
    "plain": region_cfg(-16, 16, -40, 40, 8, 8),
    "am": region_cfg(-80, -48, 144, -136, 8, 8),
    "single": region_cfg(-4, 4, 0, 8, 8, 8),
}
# sites in units of 1/16 of the initial cell (odd numerators: never on an edge of a cell of depth <= 3)
SITES = [(1, 1), (3, 3), (5, 7), (9, 13), (1, 11), (11, 1), (15, 7)]
N, LO, TIE, HI, NAN = "none", 0.0, 1.0, 2.0, None


def spaces(tier):
    """name -> (site count per source, value alphabet per source, list of configurations)."""
    quick = tier == "quick"
    sp = {}
    ns = 6 if quick else 7
    sp["one"] = dict(sites=[SITES[:ns]], vals=[(N, LO, HI)], cfgs=[
        dict(depth=d, min_dp=m, rules=[[r]]) for d, m, r in
        [(0, 1, rule()), (1, 1, rule()), (2, 1, rule()), (3, 1, rule()), (3, 2, rule()), (3, 3, rule()),
         (3, 2, rule(0.5, 1.0)), (3, 4, rule(0.25, 0.75))]])
    bnd = [0.0, 0.25, 0.5, 0.75, 1.0]
    sp["bounds"] = dict(sites=[[SITES[0], SITES[1], SITES[3], SITES[6]]], vals=[(N, LO, TIE, HI, NAN)], cfgs=[
        dict(depth=2 if quick else 3, min_dp=m, rules=[[rule(a, b)]])
        for a, b in itertools.combinations_with_replacement(bnd, 2) for m in (1, 2)
        if not quick or m == 1 or (a, b) in ((0.0, 1.0), (0.25, 0.5))])
    three = [SITES[0], SITES[1], SITES[3]]
    other = [SITES[2], SITES[5], SITES[3]]
    locks = list(itertools.product((None, True), repeat=2)) if quick else \
        list(itertools.product((None, False, True), repeat=2))
    sp["two"] = dict(sites=[three, other], vals=[(N, LO, HI)] * 2, cfgs=[
        dict(depth=d, min_dp=1, rules=[[rule(0.0, u, l1)], [rule(0.0, v, l2)]])
        for l1, l2 in locks for u, v in (((1.0, 1.0),) if quick else ((1.0, 1.0), (0.5, 1.0), (1.0, 0.5)))
        for d in ((2,) if quick else (1, 2, 3))])
    sp["gap"] = dict(sites=[three[:2 if quick else 3], [SITES[2]], other[:2]], vals=[(N, LO, HI), (N, HI), (N, LO, HI)], cfgs=[
        dict(depth=2, min_dp=1, rules=r) for r in (
            [[rule()], [], [rule()]],
            [[rule(0, 1, True)], [], [rule()]],
            [[rule()], [], [rule(0, 1, True)]],
            [[], [rule(0, 1)], [rule()]],
            [[], [], []],
        )])
    sp["multi"] = dict(sites=[[SITES[0], SITES[1], SITES[3], SITES[6]]], vals=[(N, LO, TIE, HI)], cfgs=[
        dict(depth=2, min_dp=1, rules=[r]) for r in (
            [rule(0, 1, None, 0.5), rule(0, 1, None, 1.5)],
            [rule(0, 1, True, 0.5), rule(0, 1, None, 1.5)],
            [rule(0, 1, None, 0.5), rule(0, 1, True, 1.5)],
            [rule(0.5, 1, None, 0.5), rule(0, 0.5, None, 1.5)],
        )])
    sp["grid"] = dict(sites=[SITES[:5 if quick else 7]], vals=[(NAN, LO, HI)], loader="grid", cfgs=[
        dict(depth=d, min_dp=1, rules=[[r]]) for d, r in
        [(1, rule()), (3, rule()), (3, rule(0.25, 0.75)), (2, rule(0.0, 0.5))]])
    sp["single"] = dict(sites=[SITES[:5]], vals=[(N, LO, HI)], grid="single", cfgs=[
        dict(depth=d, min_dp=m, rules=[[rule()]]) for d, m in ((3, 1), (2, 2))])
    return sp


def rule(lb=0.0, ub=1.0, lock=None, thr=1.0):
    r = {"threshold": thr, "lower_bound": lb, "upper_bound": ub}
    if lock is not None:
        r["split_lock"] = lock
    return r


def patterns(sp):
    per = [list(itertools.product(v, repeat=len(s))) for s, v in zip(sp["sites"], sp["vals"])]
    return list(itertools.product(*per))


def bounds(tier):
    out = []
    for n, sp in spaces(tier).items():
        out.append(f"{n}: {len(patterns(sp))} data patterns x {len(sp['cfgs'])} configurations")
    return ("; ".join(out) + "; patterns are laid out over grids of 40 initial cells on plain and antimeridian "
            "regions and on a single cell")


def tasks(tier):
    t = []
    for n, sp in spaces(tier).items():
        np_ = len(patterns(sp))
        for ci in range(len(sp["cfgs"])):
            for g in ([sp["grid"]] if "grid" in sp and n == "single" else ["plain", "am"]):
                size = {"single": 1}.get(g, 40)
                chunk = 40 if size == 1 else 400
                if g == "am" and tier == "quick" and ci % 4 != 3:
                    continue
                for lo in range(0, np_, chunk):
                    t.append({"space": n, "cfg": ci, "grid": g, "lo": lo, "hi": min(np_, lo + chunk)})
    return t


def pts_of(cell, sites, vals):
    return [(cell.x + cell.w * sx / 16, cell.y + cell.h * sy / 16, v) for (sx, sy), v in zip(sites, vals) if v != N]


def verdict(cell, pts, r, min_dp):
    ins = [v for x, y, v in pts if cell.x < x < cell.x + cell.w and cell.y < y < cell.y + cell.h]
    pres = [v for v in ins if v is not None]
    if len(ins) < min_dp:
        return "CLR"
    if len(pres) < min_dp and pres:
        return None
    frac = sum(v > r["threshold"] for v in pres) / len(pres) if pres else 0
    if frac <= r["lower_bound"]:
        return "CLR"
    if frac >= r["upper_bound"]:
        return "HOM" if r.get("split_lock") else "CLR"
    return "HET"


def reference(cell, data, c):
    """Leaves of one initial cell, or None if ambiguous."""
    leaves = {cell: 0}
    for i in range(len(data)):
        if not c["rules"][i]:
            continue
        stack = list(leaves.items())
        while stack:
            r, d = stack.pop()
            if d >= c["depth"]:
                continue
            vs = [verdict(r, data[k], q, c["min_dp"]) for k in range(i + 1) for q in c["rules"][k]]
            if None in vs:
                return None
            if "HOM" in vs or "HET" not in vs:
                continue
            del leaves[r]
            for ch in children(r):
                leaves[ch] = d + 1
                stack.append((ch, d + 1))
    return sorted(leaves)


def batch(ctx, sp, c, gname, pats, cases, shift):
    cfg0 = config(GRIDS[gname])
    reg = region_of(cfg0)
    cells = base_cells(cfg0)
    k = shift % len(cells)
    cells = cells[k:] + cells[:k]
    cells = cells[:len(pats)] if len(pats) < len(cells) else cells
    data = [[pts_of(cell, sp["sites"][i], p[i]) for i in range(len(p))] for cell, p in zip(cells, pats)]
    srcs = []
    for i in range(len(sp["sites"])):
        pts = [q for d in data for q in d[i]]
        name = "v%d" % i
        extra = {"splitting_conditions": [{name: dict(r)} for r in c["rules"][i]]} if c["rules"][i] else {}
        rows = [(y, abs_long(reg, x), v) for x, y, v in pts]
        if sp.get("loader") == "grid":
            lats = sorted({r[0] for r in rows})
            longs = sorted({r[1] for r in rows})
            val = {(r[0], r[1]): r[2] for r in rows}
            srcs.append(grid(name, lats, longs, [[val.get((a, b)) for b in longs] for a in lats], **extra))
        else:
            if not rows:
                rows = [(reg.lat_min - 1.0, abs_long(reg, 1.0), 0.0)]
            srcs.append(table(name, rows, **extra))
    cfg = config(GRIDS[gname], srcs, c["depth"], c["min_dp"])
    bcase = {"cfg": c, "grid": gname, "first": cases[0]}
    with ctx.guard(bcase, "build"):
        j = build_json(cfg)
        ctx.step()
        o = Obs(reg, j)
        if o.errors:
            ctx.fail(bcase, "; ".join(o.errors[:3]), "cells")
            return
        got_all = o.leaves()
        for cell, p, d, case in zip(cells, pats, data, cases):
            want = reference(cell, d, c)
            if want is None:
                ctx.count("ambiguous")
                continue
            got = [r for r in got_all if cell.x <= r.x < cell.x + cell.w and cell.y <= r.y < cell.y + cell.h]
            full = dict(case, grid=gname, cfg=c, cell=list(cell))
            if got != want:
                ctx.fail(full, f"initial cell {tuple(cell)} was subdivided into {len(got)} cells, the rule demands "
                         f"{len(want)}: missing {rect_list(set(want) - set(got))[:4]}, extra "
                         f"{rect_list(set(got) - set(want))[:4]}", "refinement")
            ctx.state((p, c, [((r.x - cell.x) / cell.w, (r.y - cell.y) / cell.h, r.w / cell.w) for r in got]))
            ctx.trace({"pattern": [str(x) for x in p], "cells": len(got)}, outcome=len(got))


def run(task, ctx):
    sp = spaces(ctx.tier)[task["space"]]
    c = sp["cfgs"][task["cfg"]]
    pats = patterns(sp)
    size = 1 if task["grid"] == "single" else 40
    for lo in range(task["lo"], task["hi"], size):
        idx = list(range(lo, min(lo + size, task["hi"])))
        batch(ctx, sp, c, task["grid"], [pats[i] for i in idx],
              [{"space": task["space"], "pattern": i} for i in idx], lo // size * 7)


def replay_case(case, ctx):
    if "task" in case:
        return run(case["task"], ctx)
    for t in tasks(ctx.tier):
        f = case.get("first", case)
        sp = spaces(ctx.tier)[t["space"]]
        if t["space"] == f["space"] and t["grid"] == case["grid"] and sp["cfgs"][t["cfg"]] == case["cfg"] \
                and t["lo"] <= f["pattern"] < t["hi"]:
            run(t, ctx)
            return
