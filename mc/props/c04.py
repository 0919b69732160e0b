"""C04: each cell's value is the configured aggregate of the data inside it, or the configured filling."""
import itertools

from mc.geom import Rect
from mc.meshes import (region_cfg, config, region_of, base_cells, children, build_json, Obs, abs_long, driver_source,
                       leaves_of)
from mc.sources import table, grid, aggregate, same

ID = "C04"
LEVEL = "model_checking"
RULE = ("a state is (data pattern in an initial cell, subdivision, aggregate, filling) -> values of all its cells; a "
        "transition is one build of the real code over a grid of initial cells carrying consecutive patterns of the "
        "enumeration, with one data source per aggregate; the oracle aggregates the raw data points per cell")
ASSUMPTIONS = ["STD may follow either the population or the sample convention (NaN for one point), consistently",
               "data points lie strictly inside cells (edges: C05)", "comparison tolerance 1e-9"]
GRIDS = {"plain": region_cfg(-16, 16, -40, 40, 8, 8), "am": region_cfg(-80, -48, 144, -136, 8, 8)}
SITES = [(1, 1), (3, 3), (11, 13), (13, 11), (13, 3)]
N = "none"
VALS = (N, None, -1.0, 2.0, 3.5)
# magnitudes and values that other conventions take for special ones
PALETTES = {"tiny": (1e-9, -3e-10, 4e-9), "huge": (1e15 + 1, 1e15 + 3, -1e15), "thirds": (1 / 3, 0.1, 2 / 3),
            "marks": (-999.0, 9999.0, -32768.0), "wide": (1e20, 1.0, -9.96921e36), "zero": (0.0, 1e-3, -1.0)}
AGGS = ("MIN", "MAX", "MEAN", "MEDIAN", "STD", "COUNT")
FILLS = {"absent": ("absent", "parent"), "parent": ("parent", "parent"), "5.5": (5.5, 5.5), "zero": (0, 0.0),
         "strzero": ("0", 0.0), "Nan": ("Nan", None), "junk": ("whatever", "parent"), "-3": ("-3", -3.0)}
SHAPES = ("none", "once", "sw", "swsw", "ne")


def split_nodes(cell, shape):
    s = set()
    if shape == "none":
        return s
    s.add(cell)
    k = children(cell)
    if shape in ("sw", "swsw"):
        s.add(k[0])
    if shape == "swsw":
        s.add(children(k[0])[0])
    if shape == "ne":
        s.add(k[3])
    return s


def bounds(tier):
    n = 3 if tier == "quick" else 5
    return (f"all {5 ** n} patterns of {n} sites over (no point, missing value, -1, 2, 3.5) x subdivisions {SHAPES} x "
            f"aggregates {AGGS} x fillings {list(FILLS)} for tables; {4 ** n} patterns for gridded data; two sources "
            f"of the same name (all pairs of patterns over 2 sites x fillings); default aggregate; the same with values {PALETTES}; up to 20000 points per cell; plain and "
            "antimeridian grids")


def tasks(tier):
    quick = tier == "quick"
    t = []
    for kind in ("table", "grid"):
        for f in FILLS:
            for s in SHAPES:
                n = 3 if quick else 5
                if quick and kind == "table" and f == "absent" and s == "sw":
                    n = 4
                tot = 5 ** n if kind == "table" else 4 ** n
                if quick:
                    # the numeric fillings differ only in the number, the shapes only matter for parents
                    if f in ("zero", "strzero", "-3", "junk", "Nan", "5.5") and s not in ("sw",):
                        continue
                    if f == "parent" and s in ("none", "ne"):
                        continue
                    if kind == "grid" and f in ("strzero", "-3", "junk", "zero"):
                        continue
                for lo in range(0, tot, 80):
                    g = "am" if (lo // 80 + SHAPES.index(s)) % 3 == 0 else "plain"
                    for gg in ([g] if quick else ["plain", "am"]):
                        t.append({"kind": kind, "n": n, "fill": f, "shape": s, "grid": gg, "lo": lo, "hi": min(tot, lo + 80)})
    for src, n in itertools.product(("table", "grid"), (1500, 20000)):
        t.append({"kind": "bulk", "src": src, "n": n})
    for kind, pal in itertools.product(("table", "grid"), PALETTES):
        n = 3 if quick else 4
        tot = (5 if kind == "table" else 4) ** n
        for lo in range(0, tot, 80):
            t.append({"kind": kind, "pal": pal, "n": n, "fill": "absent", "shape": "once", "grid": "plain", "lo": lo,
                      "hi": min(tot, lo + 80)})
    for f1, f2 in itertools.product(("parent", "Nan", "5.5"), repeat=2):
        for s in (("sw",) if quick else ("none", "sw", "swsw")):
            t.append({"kind": "dup", "fill": f1, "fill2": f2, "shape": s, "grid": "plain", "lo": 0, "hi": 80})
            t.append(dict(t[-1], lo=80, hi=160))
            t.append(dict(t[-1], lo=160, hi=256))
    return t


def pts_of(cell, vals):
    return [(cell.x + cell.w * sx / 16, cell.y + cell.h * sy / 16, v) for (sx, sy), v in zip(SITES, vals) if v != N]


def inside(r, pts):
    return [v for x, y, v in pts if r.x < x < r.x + r.w and r.y < y < r.y + r.h and v is not None]


def std1(vals):
    import math
    if len(vals) < 2:
        return None
    m = math.fsum(vals) / len(vals)
    return math.sqrt(math.fsum((v - m) ** 2 for v in vals) / (len(vals) - 1))


def chain(cell, leaf):
    """Ancestors of leaf inside the initial cell, nearest first."""
    out, r = [], cell
    while r != leaf:
        out.insert(0, r)
        r = next(c for c in children(r) if c.x <= leaf.x < c.x + c.w and c.y <= leaf.y < c.y + c.h)
    return out


def expected(cell, leaf, pts, agg, fill):
    """Set of admissible values (None = NaN)."""
    fs = [lambda v: aggregate(agg, v)] if agg != "STD" else [lambda v: aggregate("STD", v), std1]
    out = []
    for f in fs:
        v = f(inside(leaf, pts))
        if v is None:
            if fill == "parent":
                for a in chain(cell, leaf):
                    v = f(inside(a, pts))
                    if v is not None:
                        break
            else:
                v = fill
        out.append(v)
    return out


def patterns(task):
    if task["kind"] == "dup":
        per = list(itertools.product((N, None, -1.0, 2.0), repeat=2))
        return [p for p in itertools.product(per, repeat=2)]
    v = VALS if "pal" not in task else VALS[:2] + PALETTES[task["pal"]]
    v = v if task["kind"] == "table" else v[1:]
    return list(itertools.product(v, repeat=task["n"]))


def mk(kind, name, rows, reg, **extra):
    if kind != "grid":
        rows = rows or [(reg.lat_min - 1.0, abs_long(reg, 1.0), 0.0)]
        return table(name, rows, **extra)
    lats = sorted({r[0] for r in rows})
    longs = sorted({r[1] for r in rows})
    val = {(r[0], r[1]): r[2] for r in rows}
    return grid(name, lats, longs, [[val.get((a, b)) for b in longs] for a in lats], **extra)


def fill_params(f):
    raw = FILLS[f][0]
    return {} if raw == "absent" else {"value_fill_types": raw}


def batch(ctx, task, pats, idx):
    cfg0 = config(GRIDS[task["grid"]])
    reg = region_of(cfg0)
    cells = base_cells(cfg0)
    k = (idx[0] // 40) * 7 % len(cells)
    cells = (cells[k:] + cells[:k])[:len(pats)]
    nodes = [split_nodes(c, task["shape"]) for c in cells]
    srcs = []
    one = min(1.0, max(map(abs, PALETTES[task["pal"]]))) if "pal" in task else 1.0
    if task["shape"] != "none":
        srcs.append(driver_source(reg, set().union(*nodes)))
    geo = lambda pts: [(y, abs_long(reg, x), v) for x, y, v in pts]
    if task["kind"] == "dup":
        # sites 0 (SW.SW) and 2 (NE)
        def two(cell, p):
            return [(cell.x + cell.w * SITES[i][0] / 16, cell.y + cell.h * SITES[i][1] / 16, v)
                    for i, v in zip((0, 2), p) if v != N]
        da = [two(c, p[0]) for c, p in zip(cells, pats)]
        db = [[(x, y, None if v is None else v + 10) for x, y, v in two(c, p[1])] for c, p in zip(cells, pats)]
        srcs.append(mk("table", "val", geo([q for d in da for q in d]), reg, agg="MEAN", **fill_params(task["fill"])))
        srcs.append(mk("table", "val", geo([q for d in db for q in d]), reg, agg="MAX", **fill_params(task["fill2"])))
        names = [("val", None)]
    else:
        data = [pts_of(c, p) for c, p in zip(cells, pats)]
        rows = geo([q for d in data for q in d])
        names = []
        for a in AGGS:
            srcs.append(mk(task["kind"], "v" + a, rows, reg, agg=a, **fill_params(task["fill"])))
            names.append(("v" + a, a))
        if task["fill"] == "absent" and task["shape"] == "once":
            s = mk(task["kind"], "vdef", rows, reg)
            del s["params"]["aggregate_type"]
            srcs.append(s)
            names.append(("vdef", "MEAN"))
    cfg = config(GRIDS[task["grid"]], srcs, 3, 1)
    bcase = {"task": dict(task, lo=idx[0], hi=idx[-1] + 1)}
    with ctx.guard(bcase, "build"):
        j = build_json(cfg)
        ctx.step()
        o = Obs(reg, j)
        by = o.by_rect()
        if o.errors:
            ctx.fail(bcase, "; ".join(o.errors[:3]), "cells")
            return
        for n, (cell, p) in enumerate(zip(cells, pats)):
            for leaf in leaves_of([cell], nodes[n]):
                if leaf not in by:
                    ctx.fail(bcase, f"cell {tuple(leaf)} is missing", "cells")
                    return
                got = o.data[by[leaf]]
                extra = set(got) - {x for x, _ in names} - {"drv"}
                if extra:
                    ctx.fail(bcase, f"unexpected attributes {sorted(extra)}", "names")
                for name, agg in names:
                    if task["kind"] == "dup":
                        w = []
                        for v in expected(cell, leaf, da[n], "MEAN", FILLS[task["fill"]][1]):
                            w += [v] if v is not None else expected(cell, leaf, db[n], "MAX", FILLS[task["fill2"]][1])
                    else:
                        w = expected(cell, leaf, data[n], agg, FILLS[task["fill"]][1])
                    v = got.get(name, "absent")
                    if not any(same(v, x, one=one) for x in w):
                        ctx.fail({"task": dict(task, lo=idx[n], hi=idx[n] + 1), "leaf": list(leaf), "name": name},
                                 f"pattern {p} shape {task['shape']}: cell {tuple(leaf)} has {name} = {v!r}, expected {w}",
                                 "value")
                    ctx.trace({"pattern": [str(x) for x in p], "agg": agg, "value": v}, outcome=str(v))
            ctx.state((task["kind"], task.get("pal"), task["fill"], task.get("fill2"), task["shape"], idx[n]))


def bulk(task, ctx):
    """Many points in a cell: two cells, one split, n points on a lattice, a seventh of them missing."""
    n, region = task["n"], region_cfg(-8, 0, -8, 8, 8, 8)
    reg = region_of(config(region))
    k = int((2 * n) ** 0.5) // 4 * 4                       # k x k points over the region, none on an edge
    lats = [-8 + 8 * (i + 0.5) / k for i in range(k)]
    longs = [-8 + 16 * (i + 0.5) / k for i in range(k)]
    val = [[None if (i * k + q) % 7 == 3 else ((i * k + q) * 7919 % 1009) / 8 - 20 for q in range(k)] for i in range(k)]
    cell = base_cells(config(region))[0]
    srcs = [driver_source(reg, {cell})]
    for a in AGGS:
        if task["src"] == "grid":
            srcs.append(grid("v" + a, lats, longs, val, a))
        else:
            srcs.append(table("v" + a, [(lats[i], longs[q], val[i][q]) for i in range(k) for q in range(k)], a))
    with ctx.guard({"task": task}, "build"):
        o = Obs(reg, build_json(config(region, srcs, 1, 1)))
        ctx.step()
        pts = [(longs[q] + 8, lats[i], val[i][q]) for i in range(k) for q in range(k)]
        by = o.by_rect()
        for leaf in leaves_of(base_cells(config(region)), {cell}):
            for a in AGGS:
                v = o.data[by[leaf]]["v" + a] if leaf in by else "absent"
                w = expected(cell, leaf, pts, a, None)
                if not any(same(v, x) for x in w):
                    ctx.fail({"task": task}, f"{k * k} points: cell {tuple(leaf)} has {a} = {v!r}, expected {w}", "value")
            ctx.state(("bulk", task["src"], n, tuple(leaf)))


def run(task, ctx):
    if task["kind"] == "bulk":
        return bulk(task, ctx)
    pats = patterns(task)
    for lo in range(task["lo"], min(task["hi"], len(pats)), 40):
        idx = list(range(lo, min(lo + 40, task["hi"], len(pats))))
        if idx:
            batch(ctx, task, [pats[i] for i in idx], idx)


def replay_case(case, ctx):
    run(case["task"], ctx)
