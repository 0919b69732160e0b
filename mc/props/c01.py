"""C01: the cells of a built mesh tile the configured region exactly."""
from mc.builds import build_tasks, build_cases, build_case
from mc.meshes import build_json, region_of, Obs

ID = "C01"
LEVEL = "model_checking"
RULE = ("a state is the set of cell rectangles of one finished build; a transition is one build of the real "
        "code from a configuration and a data file; the oracle is exact cover of the region by rectangles")
ASSUMPTIONS = ["regions have coordinates that are dyadic or written with one or two decimals", "a globe-wide mesh has at least 3 columns and cells are "
               "narrower than 180 degrees", "bounds: see coverage.bounds"]


def bounds(tier):
    return ("22 regions (all hemispheres, poles, antimeridian, globe) and 8 with decimal coordinates: all parent-closed split sets with <=3 splits "
            "nested <=3 (thorough: <=4/<=4), every depth-2 tree of a 2x1 grid (plain, antimeridian), every depth-1 "
            "tree of 3x3; all 720 placements on the 20 degree lattice; wide grids with <=1 (2) splits"
            + ("" if tier == "quick" else "; all depth-2 trees of 2x2 (83521 each, plain and antimeridian); "
               "all depth-3 trees of one cell (83522)"))


tasks = build_tasks


def one(ctx, case, region, cfg, want):
    with ctx.guard(case, "build"):
        j = build_json(cfg)
        ctx.step()
        reg = region_of(cfg)
        o = Obs(reg, j)
        errs = o.tiling()
        if not errs and o.leaves() != want:
            errs = [f"the subdivision differs from the one the data demand: "
                    f"missing {sorted(set(want) - set(o.leaves()))[:3]}, extra {sorted(set(o.leaves()) - set(want))[:3]}"]
        if errs:
            ctx.fail(case, "; ".join(errs[:4]), "tiling")
        ctx.state((case.get("region", str(case.get("place"))), [tuple(r) for r in o.leaves()]))
        ctx.trace({"case": case, "cells": len(o.cells)}, outcome=len(o.cells))


def run(task, ctx):
    for c in build_cases(task):
        one(ctx, *c)


def replay_case(case, ctx):
    if "task" in case:
        return run(case["task"], ctx)
    one(ctx, *build_case(case))
