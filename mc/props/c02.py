"""C02: the neighbour graph is exactly the geometric adjacency of the cells."""
from mc.builds import (build_tasks, build_cases, build_case, all_regions, DECIMAL, REGIONS, chunks, rect_list)
from mc.geom import plain, to_rect
from mc.meshes import (build_json, builder, region_of, config, base_cells, children, Obs, observe_builder)

ID = "C02"
LEVEL = "model_checking"
RULE = ("a state is the labelled adjacency graph over cell rectangles after a build or after a sequence of cell "
        "splits; a transition is one build or one split on the real code; the oracle recomputes adjacency from "
        "the rectangles alone")
ASSUMPTIONS = ["regions have coordinates that are dyadic or written with one or two decimals", "a globe-wide mesh has at least 3 columns and cells are "
               "narrower than 180 degrees", "bounds: see coverage.bounds"]


def bounds(tier):
    n = 3 if tier == "quick" else 4
    return ("the builds of C01 (22 regions and 8 with decimal coordinates, all split sets with <=3 splits (thorough 4), full depth-2 trees of 2x1, "
            f"placements); plus every ordered history of <= {n} cell splits of every region's grid during "
            "construction (<=3 for the 3x3 and globe grids)")


def first_moves(region):
    return base_cells(config(region))


def tasks(tier):
    t = build_tasks(tier)
    for r in list(REGIONS) + [d for d in DECIMAL if d != "dec_globe"]:
        b = first_moves(all_regions()[r])
        n = 3 if (tier == "quick" or len(b) > 4) else 4
        if r in DECIMAL and tier == "quick":
            n = 2
        for i in range(len(b)):
            t.append({"kind": "hist", "region": r, "first": i, "len": n})
    return t


def graph_key(o):
    by = {i: tuple(r) for i, r in o.cells.items()}
    out = []
    for k, m in o.graph.items():
        out.append((by.get(int(k)), tuple(sorted((int(d), tuple(sorted(by.get(int(x), (x,)) for x in v)))
                                                 for d, v in m.items()))))
    return sorted(out, key=str)


def judge(ctx, case, o, name):
    errs = o.adjacency_errors()
    if errs:
        ctx.fail(case, "; ".join(errs[:4]), "adjacency")
    ctx.state((name, graph_key(o)))
    ctx.trace({"case": case, "cells": len(o.cells)},
              outcome=sorted((int(d), len(v)) for m in o.graph.values() for d, v in m.items()))


def one(ctx, case, region, cfg, want):
    with ctx.guard(case, "build"):
        j = build_json(cfg)
        ctx.step()
        judge(ctx, case, Obs(region_of(cfg), j), str(case.get("region", case.get("place"))))


def history(ctx, rname, hist):
    case = {"region": rname, "history": [plain(r) for r in hist]}
    region = all_regions()[rname]
    cfg = config(region)
    reg = region_of(cfg)
    with ctx.guard(case, "history"):
        b = builder(cfg)
        for h in hist:
            for cb in b.mesh.cellboxes:
                if cb is not None:
                    bd = cb.get_bounds()
                    if reg.rect(bd.get_long_min(), bd.get_long_max(), bd.get_lat_min(), bd.get_lat_max()) == h:
                        b.split_and_replace(cb)
                        ctx.step()
                        break
            else:
                ctx.fail(case, f"cell {h} does not exist", "history")
                return
        judge(ctx, case, observe_builder(reg, b), rname)


def run(task, ctx):
    if task["kind"] != "hist":
        for c in build_cases(task):
            one(ctx, *c)
        return
    bases = first_moves(all_regions()[task["region"]])

    def rec(hist, leaves):
        history(ctx, task["region"], hist)
        if len(hist) < task["len"]:
            for i, c in enumerate(leaves):
                rec(hist + [c], leaves[:i] + leaves[i + 1:] + children(c))
    f = bases[task["first"]]
    rec([f], [b for b in bases if b != f] + children(f))


def replay_case(case, ctx):
    if "task" in case:
        return run(case["task"], ctx)
    if "history" in case:
        return history(ctx, case["region"], [to_rect(r) for r in case["history"]])
    one(ctx, *build_case(case))
