"""C19: a data source added to a builder acts as if it had been configured last."""
import copy
import itertools

from mc.meshes import region_cfg, region_of, config, Obs, csv, base_cells
from mc.props.c08 import doc_same
from mc.sources import grid_file

ID = "C19"
LEVEL = "model_checking"
RULE = ("a state is (configured sources, history of builds and additions of one builder) -> the meshes it produced; a transition is "
        "one addition or build on the real code; the oracle is the mesh built from a configuration that lists all sources")
ASSUMPTIONS = ["the configured and the added sources use the same minimum number of data points",
               "the configuration recorded in the document is not compared"]

REG = region_cfg(-8, 8, -8, 8, 8, 8)
AM = region_cfg(-8, 8, 172, -172, 8, 8)
KINDS = ("table", "gaps", "same", "grid", "vector", "lut", "own", "smooth", "conds", "locks")
HIST = (("add",), ("build", "add"), ("build", "build", "add"))


def bounds(tier):
    return (f"every configured source (or none) and every one or two added sources from {KINDS}, before and after 0-2 builds, "
            "on 2 regions, minimum counts 1, 3 and 6, depths 1 and 2, fillings, default and given bounds, with and without "
            "splitting conditions")


def rows(am, kind):
    out = []
    for i, a in enumerate((-7, -5, -3, -1, 1, 3, 5, 7)):
        for j, b in enumerate((-7, -5, -3, -1, 1, 3, 5, 7)):
            x = b if not am else (b + 180 if b < 0 else b - 180)
            v = float((3 * i + 5 * j) % 7)
            if kind == "gaps" and (i + 2 * j) % 3:
                continue
            if kind == "gaps" and (i, j) == (0, 0):
                v = None
            if kind == "smooth":
                v = float(i >= 4 and j >= 6)
            out.append((a + .25, x + .25, v))
    return out


def cond(name, on, t=2.5, lo=0.0, hi=1.0, **kw):
    return {"splitting_conditions": [{name: dict({"threshold": t, "lower_bound": lo, "upper_bound": hi}, **kw)}]} if on else {}


def source(kind, am, on, k):
    """(loader name in a configuration, class, parameters) of the k-th source."""
    from meshiphi.dataloaders.scalar.scalar_csv import ScalarCSVDataLoader
    from meshiphi.dataloaders.scalar.gebco import GEBCODataLoader
    from meshiphi.dataloaders.vector.vector_csv import VectorCSVDataLoader
    from meshiphi.dataloaders.lut.density import DensityDataLoader
    n = f"{kind}{k}"
    if kind == "table":
        return "scalar_csv", ScalarCSVDataLoader, dict(
            {"files": [csv(rows(am, kind), f"lat,long,{n}")], "data_name": n, "aggregate_type": "MAX"}, **cond(n, on))
    if kind in ("conds", "locks"):
        # several conditions: the decisive one last, or a lock first
        one = lambda t, lo, hi, **kw: {n: dict({"threshold": t, "lower_bound": lo, "upper_bound": hi}, **kw)}
        cs = [one(50.0, 0.0, 1.0), one(4.5, 0.0, 0.9)] if kind == "conds" else [one(-1.0, 0.0, 0.9, split_lock=True), one(2.5, 0.0, 1.0), one(5.5, 0.0, 1.0)]
        return "scalar_csv", ScalarCSVDataLoader, dict(
            {"files": [csv(rows(am, "table"), f"lat,long,{n}")], "data_name": n}, **({"splitting_conditions": cs} if on else {}))
    if kind == "smooth":
        return "scalar_csv", ScalarCSVDataLoader, dict(
            {"files": [csv(rows(am, kind), f"lat,long,{n}")], "data_name": n}, **cond(n, on, 0.5, split_lock=True))
    if kind == "gaps":
        return "scalar_csv", ScalarCSVDataLoader, dict(
            {"files": [csv(rows(am, kind), f"lat,long,{n}")], "data_name": n, "value_fill_types": ("parent", "9")[k % 2]}, **cond(n, on))
    if kind == "same":
        return "scalar_csv", ScalarCSVDataLoader, dict(
            {"files": [csv(rows(am, "gaps"), "lat,long,table0")], "data_name": "table0", "aggregate_type": "MIN"}, **cond("table0", on))
    if kind == "grid":
        lats = [-7.0, -5.0, -3.0, -1.0, 1.0, 3.0, 5.0, 7.0]
        longs = sorted(b if not am else (b + 180 if b < 0 else b - 180) for b in lats)
        vals = [[float((2 * i + 3 * j) % 5) for j in range(8)] for i in range(8)]
        return "GEBCO", GEBCODataLoader, dict({"files": [grid_file(lats, longs, vals)], "data_name": n, "aggregate_type": "MEAN"},
                                              **cond(n, on, 1.5, 0.1, 0.9))
    if kind == "vector":
        nm = f"u{k},v{k}"
        p = {"files": [csv([(a, b, v, 1 - v) for a, b, v in rows(am, "table")], f"lat,long,{nm}")], "data_name": nm}
        if on:
            p["splitting_conditions"] = [{nm: {"dmag": {"threshold": 1.0, "lower_bound": 0.0, "upper_bound": 0.5}}}]
        return "vector_csv", VectorCSVDataLoader, p
    if kind == "lut":
        return "density", DensityDataLoader, {"data_name": n, "aggregate_type": "MAX"}
    # a loader written by the user, as in the documentation

    class MyLoader(ScalarCSVDataLoader):
        def import_data(self, bounds):
            import pandas as pd
            return pd.concat([pd.read_csv(f) for f in self.files])
    return "scalar_csv", MyLoader, dict({"files": [csv(rows(am, "table"), f"lat,long,{n}")], "data_name": n}, **cond(n, on, 3.5))


def by_rect(reg, doc):
    o = Obs(reg, doc)
    return o, {r: o.data[i] for i, r in o.cells.items()}


def same_vals(a, b):
    return set(a) == set(b) and all(doc_same(x, y) if not isinstance(x, float) or not isinstance(y, float)
                                    else (x == y or (x != x and y != y) or abs(x - y) <= 1e-12 * max(1, abs(x)))
                                    for x, y in ((a[k], b[k]) for k in a))


def case_run(ctx, base, added, hist, am, min_dp, depth, on, given):
    case = {"case": [list(base), list(added), list(hist), am, min_dp, depth, on, given]}
    key = f"add:{'after' if 'build' in hist else 'before'}"
    with ctx.guard(case, key):
        from meshiphi.mesh_generation.mesh_builder import MeshBuilder
        from meshiphi.mesh_generation.boundary import Boundary
        region = AM if am else REG
        src = [source(k, am, on, i) for i, k in enumerate(list(base) + list(added))]
        full = config(region, [{"loader": l, "params": copy.deepcopy(p)} for l, _, p in src], depth, min_dp)
        want = MeshBuilder(full).build_environmental_mesh().to_json()
        cfg = config(region, [{"loader": l, "params": copy.deepcopy(p)} for l, _, p in src[:len(base)]], depth, min_dp)
        b = MeshBuilder(cfg)
        kept = []
        for h in hist:
            if h == "build":
                m = b.build_environmental_mesh()
                kept.append((m, copy.deepcopy(m.to_json())))
                ctx.step()
        for _, cls, p in src[len(base):]:
            bd = Boundary.from_json(cfg) if given else None
            r = b.add_dataloader(cls, copy.deepcopy(p), bounds=bd, min_dp=min_dp)
            ctx.step()
            if r is not b:
                ctx.fail(case, f"add_dataloader returned {type(r).__name__}, not the builder", "add:return")
                return
        m = b.build_environmental_mesh()
        ctx.step()
        reg = region_of(cfg)
        og, got = by_rect(reg, m.to_json())
        ow, exp = by_rect(reg, want)
        err = og.tiling() or og.adjacency_errors()
        if err:
            ctx.fail(case, f"the mesh after the addition is not a correct mesh: {err[0]}", key)
            return
        if set(got) != set(exp):
            ctx.fail(case, f"cells {sorted(set(got) - set(exp))[:2]} instead of {sorted(set(exp) - set(got))[:2]}", key)
            return
        for r in got:
            if not same_vals(got[r], exp[r]):
                ctx.fail(case, f"cell {r} holds {got[r]}, expected {exp[r]}", key)
                return
        for mm, d in kept:
            if not doc_same(mm.to_json(), d):
                ctx.fail(case, "a mesh built earlier changed through the addition", "add:earlier")
                return
        ctx.state((case["case"], len(got)))
        ctx.trace({"case": case}, outcome=len(got))


def cases(tier):
    out = []
    bases = [()] + [(k,) for k in KINDS if k not in ("same", "conds")] + [("table", "gaps")]
    adds = [(k,) for k in KINDS] + [("table", "smooth"), ("gaps", "vector"), ("grid", "lut"), ("own", "gaps"), ("conds", "locks")]
    n = 0
    for base in bases:
        for added in adds:
            for hist in HIST:
                for am in (False, True):
                    for md in ((1, 3, 6) if tier == "quick" else (0, 1, 2, 3, 4, 6)):
                        for depth in (1, 2) if tier == "quick" else (0, 1, 2, 3):
                            for on in (True, False):
                                n += 1
                                if not on and n % 4:
                                    continue
                                if tier == "quick" and (n // 2) % 3:
                                    continue
                                out.append((base, added, hist, am, md, depth, on, bool(n % 2)))
    return out


def tasks(tier):
    n = len(cases(tier))
    return [{"lo": lo, "hi": min(n, lo + 40)} for lo in range(0, n, 40)]


def run(task, ctx):
    for c in cases(ctx.tier)[task["lo"]:task["hi"]]:
        case_run(ctx, *c)


def replay_case(case, ctx):
    base, added, hist, *rest = case["case"]
    case_run(ctx, tuple(base), tuple(added), tuple(hist), *rest)
