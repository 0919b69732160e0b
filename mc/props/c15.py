"""C15: vector data: both components of a cell come from the data inside it, by the documented aggregate and rules."""
import itertools
import math
import os

from mc import env
from mc.meshes import (region_cfg, config, region_of, base_cells, children, build_json, Obs, abs_long, csv,
                       driver_source, leaves_of)
from mc.sources import aggregate, same
from mc.props import c05
from mc.props.c04 import (GRIDS, SITES, SHAPES, FILLS, split_nodes, chain, fill_params, std1, N)

ID = "C15"
LEVEL = "model_checking"
RULE = ("a state is (vectors placed in an initial cell, subdivision or splitting rule, aggregate, filling) -> component "
        "values / subdivision of the cell; a transition is one build of the real code over a grid of initial cells "
        "carrying consecutive patterns of the enumeration; the oracle works on the raw vectors")
ASSUMPTIONS = ["a missing vector misses both components", "data points lie strictly inside cells",
               "STD may follow either the population or the sample convention",
               "COUNT of a cell without values may be 0 or filled",
               "curl: complete lattices with unit spacing; fields whose "
               "curl exceeds the threshold in magnitude only with negative sign are left open"]
MISS = "missing"
VECS = ((-1.0, 0.0), (0.0, 2.0), (3.0, -4.0))
VALS = (N, MISS) + VECS
PALETTES = {"tiny": ((1e-9, 0.0), (0.0, -2e-9), (3e-9, 4e-9)), "huge": ((1e15 + 1, 0.0), (0.0, 1e15 + 3), (-3e15, 7.0)),
            "thirds": ((1 / 3, 0.1), (0.7, -2 / 3), (0.2, 0.3)), "marks": ((-999.0, 9999.0), (0.0, 0.0), (-32768.0, 1.0))}
AGGS = ("MIN", "MAX", "MEAN", "STD", "COUNT")
CGRID = {"plain": region_cfg(-16, 16, -40, 40, 8, 8), "east": region_cfg(-88, -56, 92, 172, 8, 8),
         "am": region_cfg(-80, 80, 168, -168, 8, 8)}
CVEC = ((0.0, 0.0), (1.0, 0.0), (0.0, 2.0), (-1.0, 1.0))


def bounds(tier):
    n = 3 if tier == "quick" else 4
    return (f"values: all patterns of {n} sites over (no point, missing, 3 vectors) x subdivisions {SHAPES} x aggregates "
            f"{AGGS} x fillings, tables (one file, two files), grids (one and two dates); two sources of the same names; the same with vectors {PALETTES}; "
            "dmag: all patterns of 4 sites over (no point, 3 vectors) x 8 rules for tables, 3 vectors for grids; curl: all "
            "fields of 4 vectors on 2x2 and of 2 vectors on 3x2 / 2x3 lattices per cell x 4 rules, tables and grids, of one date and of two (the second with doubled vectors); positions on "
            "the half-cell lattice and 9 dates around the period, as in C05")


def tasks(tier):
    quick = tier == "quick"
    t = []
    n = 3 if quick else 4
    for kind in ("table", "files", "grid", "grid2", "mean"):
        for f in FILLS:
            for s in SHAPES:
                if quick:
                    if f in ("zero", "strzero", "-3", "junk", "Nan", "5.5") and s not in ("sw",):
                        continue
                    if f in ("strzero", "-3", "junk") and kind != "table":
                        continue
                    if kind in ("files", "grid2", "mean") and f not in ("absent", "5.5"):
                        continue
                    if f == "parent" and s in ("none", "ne"):
                        continue
                tot = len(patterns(kind, n))
                for lo in range(0, tot, 80):
                    g = "am" if (lo // 80 + SHAPES.index(s)) % 3 == 0 else "plain"
                    for gg in ([g] if quick else ["plain", "am"]):
                        t.append({"kind": kind, "n": n, "fill": f, "shape": s, "grid": gg, "lo": lo, "hi": min(tot, lo + 80)})
    for kind, pal in itertools.product(("table", "grid"), PALETTES):
        tot = len(patterns(kind, n, pal))
        for lo in range(0, tot, 80):
            t.append({"kind": kind, "pal": pal, "n": n, "fill": "absent", "shape": "once", "grid": "plain", "lo": lo,
                      "hi": min(tot, lo + 80)})
    for f1, f2 in itertools.product(("parent", "Nan", "5.5"), repeat=2):
        for s in (("sw",) if quick else ("none", "sw", "swsw")):
            for lo in range(0, 256, 80):
                t.append({"kind": "dup", "n": 2, "fill": f1, "fill2": f2, "shape": s, "grid": "plain", "lo": lo,
                          "hi": min(256, lo + 80)})
    for src in ("table", "grid", "table2", "grid2"):
        two = src.endswith("2")
        tot = len(dmag_patterns(src))
        for ci in range(len(rules())):
            for g in ("plain", "am"):
                if quick and ((g == "am") != (ci % 3 == 0) or (two and ci % 2)):
                    continue
                for lo in range(0, tot, 200):
                    t.append({"kind": "dmag", "src": src, "cfg": ci, "grid": g, "lo": lo, "hi": min(tot, lo + 200)})
        for lat in ("2x2", "3x2", "2x3"):
            if quick and two and lat == "2x3":
                continue
            tot = len(curl_patterns(lat))
            for ci in range(len(curl_rules())):
                for g in CGRID:
                    if quick and g != ("am", "plain", "east", "am")[ci]:
                        continue
                    for lo in range(0, tot, 200):
                        t.append({"kind": "curl", "src": src, "lat": lat, "cfg": ci, "grid": g, "lo": lo,
                                  "hi": min(tot, lo + 200)})
    # which vectors a cell holds: positions on edges and corners, dates around the period
    for m in c05.tasks(tier):
        if m["kind"][0] == "v" and (not quick or m["region"] in ("plain", "am_straddle") or m["kind"].endswith("-time")):
            t.append({"kind": "members", "members": m})
    return t


# ------------------------------------------------------------------ input
def vtable(name, rows, agg, nfiles=1, dates=False, **extra):
    """rows: (lat, long, vector or MISS)."""
    if dates:
        # the second date carries the doubled vector
        rr = [(t, a, b) + ((None, None) if v == MISS else (v[0] * m, v[1] * m)) for m, t in ((1, "2020-01-02"), (2, "2020-01-03"))
              for a, b, v in rows]
    else:
        rr = [(a, b) + ((None, None) if v == MISS else v) for a, b, v in rows]
    head = ("time," if dates else "") + "lat,long," + name
    files = [csv(rr[i::nfiles], head) for i in range(nfiles)]
    p = {"files": files, "data_name": name, "aggregate_type": agg}
    p.update(extra)
    return {"loader": "vector_csv", "params": p}


_nc = {}


def vgrid(name, rows, agg, times=1, mean=False, **extra):
    """northsea_currents (per date) or baltic_currents (mean over dates)."""
    import numpy as np
    import xarray as xr
    key = (os.getpid(), tuple(rows), times, mean)
    if key not in _nc:
        lats = sorted({r[0] for r in rows})
        longs = sorted({r[1] for r in rows})
        u = np.full((times, len(lats), len(longs)), np.nan)
        v = u.copy()
        for a, b, w in rows:
            if w != MISS:
                # the second date carries the doubled vector
                for k in range(times):
                    u[k, lats.index(a), longs.index(b)] = w[0] * (k + 1)
                    v[k, lats.index(a), longs.index(b)] = w[1] * (k + 1)
        tt = np.array(["2020-01-02", "2020-01-03"][:times], dtype="datetime64[ns]")
        if mean:
            ds = xr.Dataset({"uo": (("time", "depth", "latitude", "longitude"), u[:, None]),
                             "vo": (("time", "depth", "latitude", "longitude"), v[:, None])},
                            coords={"time": tt, "depth": [0.5], "latitude": lats, "longitude": longs})
        else:
            ds = xr.Dataset({"U": (("times", "lat", "lon"), u), "V": (("times", "lat", "lon"), v)},
                            coords={"times": tt, "lat": lats, "lon": longs})
        path = os.path.join(env.scratch(), f"vg{len(_nc)}.nc")
        ds.to_netcdf(path)
        _nc[key] = path
    p = {"files": [_nc[key]], "data_name": name, "aggregate_type": agg}
    p.update(extra)
    return {"loader": "baltic_currents" if mean else "northsea_currents", "params": p}


def source(kind, name, rows, reg, agg, **extra):
    rows = rows or [(reg.lat_min - 1.0, abs_long(reg, 1.0), (0.0, 0.0))]
    if kind in ("table", "dup"):
        return vtable(name, rows, agg, **extra)
    if kind == "table2":
        return vtable(name, rows, agg, dates=True, **extra)
    if kind == "files":
        return vtable(name, rows, agg, 2 if len(rows) > 1 else 1, **extra)
    if kind == "grid":
        return vgrid(name, rows, agg, 1, **extra)
    if kind == "grid2":
        return vgrid(name, rows, agg, 2, **extra)
    return vgrid(name, rows, agg, 1, True, **extra)


# ------------------------------------------------------------------ values
def patterns(kind, n, pal=None):
    if kind == "dup":
        per = list(itertools.product((N, MISS, (-1.0, 0.0), (0.0, 2.0)), repeat=2))
        return list(itertools.product(per, repeat=2))
    vals = VALS[:2] + (PALETTES[pal] if pal else VECS)
    return list(itertools.product(vals if kind in ("table", "files") else vals[1:], repeat=n))


def place(cell, vals, sites=SITES):
    return [(cell.x + cell.w * sx / 16, cell.y + cell.h * sy / 16, v) for (sx, sy), v in zip(sites, vals) if v != N]


def vectors(r, pts, kind):
    out = [v for x, y, v in pts if r.x < x < r.x + r.w and r.y < y < r.y + r.h and v != MISS]
    if kind in ("grid2", "table2"):
        out += [(2 * a, 2 * b) for a, b in out]
    return out


def agg_of(agg, vs):
    """Admissible pairs; [None] when undefined."""
    if agg == "COUNT":
        return [(float(len(vs)),) * 2]
    if not vs:
        return [None]
    if agg in ("MIN", "MAX"):
        m = (min if agg == "MIN" else max)(math.hypot(*v) for v in vs)
        return [v for v in vs if math.hypot(*v) == m]
    if agg == "MEAN":
        return [tuple(aggregate("MEAN", [v[i] for v in vs]) for i in (0, 1))]
    a = tuple(aggregate("STD", [v[i] for v in vs]) for i in (0, 1))
    b = tuple(std1([v[i] for v in vs]) for i in (0, 1))
    return [a, b]


def expected(cell, leaf, pts, agg, fill, kind):
    vs = vectors(leaf, pts, kind)
    if agg == "COUNT":
        if vs:
            return agg_of(agg, vs)
        out = [(0.0, 0.0)]
        if fill == "parent":
            ups = [float(len(vectors(a, pts, kind))) for a in chain(cell, leaf)]
            out += [(u, u) for u in ups] + [(None, None)]
        else:
            out.append((fill, fill))
        return out
    out = []
    for k in range(2 if agg == "STD" else 1):
        def f(r):
            g = agg_of(agg, vectors(r, pts, kind))
            return g if agg != "STD" or g == [None] else [g[k]]
        g = [x for x in f(leaf) if x is not None and x[0] is not None]
        if not g:
            if fill == "parent":
                for a in chain(cell, leaf):
                    g = [x for x in f(a) if x is not None and x[0] is not None]
                    if g:
                        break
                else:
                    g = [(None, None)]
            else:
                g = [(fill, fill)]
        out += g
    return out


def values(ctx, task, pats, idx):
    cfg0 = config(GRIDS[task["grid"]])
    reg = region_of(cfg0)
    cells = base_cells(cfg0)
    k = (idx[0] // 40) * 7 % len(cells)
    cells = (cells[k:] + cells[:k])[:len(pats)]
    nodes = [split_nodes(c, task["shape"]) for c in cells]
    srcs = [] if task["shape"] == "none" else [driver_source(reg, set().union(*nodes))]
    geo = lambda pts: [(y, abs_long(reg, x), v) for x, y, v in pts]
    kind = task["kind"]
    one = 1e-9 if task.get("pal") == "tiny" else 1.0
    if kind == "dup":
        sites = [SITES[0], SITES[2]]
        da = [place(c, p[0], sites) for c, p in zip(cells, pats)]
        db = [[(x, y, v if v == MISS else (v[0] + 10, v[1] - 7)) for x, y, v in place(c, p[1], sites)]
              for c, p in zip(cells, pats)]
        srcs.append(source(kind, "u,v", geo([q for d in da for q in d]), reg, "MEAN", **fill_params(task["fill"])))
        srcs.append(source(kind, "u,v", geo([q for d in db for q in d]), reg, "MAX", **fill_params(task["fill2"])))
        names = [("u", "v", None)]
    else:
        data = [place(c, p) for c, p in zip(cells, pats)]
        rows = geo([q for d in data for q in d])
        names = []
        for a in AGGS:
            srcs.append(source(kind, f"u{a},v{a}", rows, reg, a, **fill_params(task["fill"])))
            names.append((f"u{a}", f"v{a}", a))
        if task["fill"] == "absent" and task["shape"] == "once":
            s = source(kind, "ud,vd", rows, reg, "x")
            del s["params"]["aggregate_type"]
            srcs.append(s)
            names.append(("ud", "vd", "MEAN"))
    bcase = {"task": dict(task, lo=idx[0], hi=idx[-1] + 1)}
    with ctx.guard(bcase, "build"):
        o = Obs(reg, build_json(config(GRIDS[task["grid"]], srcs, 3, 1)))
        ctx.step()
        by = o.by_rect()
        if o.errors:
            ctx.fail(bcase, "; ".join(o.errors[:3]), "cells")
            return
        known = {x for n in names for x in n[:2]} | {"drv"}
        for n, (cell, p) in enumerate(zip(cells, pats)):
            for leaf in leaves_of([cell], nodes[n]):
                if leaf not in by:
                    ctx.fail(bcase, f"cell {tuple(leaf)} is missing", "cells")
                    return
                got = o.data[by[leaf]]
                if set(got) - known:
                    ctx.fail(bcase, f"unexpected attributes {sorted(set(got) - known)}", "names")
                for nu, nv, agg in names:
                    if kind == "dup":
                        w = []
                        for v in expected(cell, leaf, da[n], "MEAN", FILLS[task["fill"]][1], kind):
                            w += [v] if v[0] is not None else expected(cell, leaf, db[n], "MAX", FILLS[task["fill2"]][1], kind)
                    else:
                        w = expected(cell, leaf, data[n], agg, FILLS[task["fill"]][1], kind)
                    v = (got.get(nu, "absent"), got.get(nv, "absent"))
                    if not any(same(v[0], x[0], one=one) and same(v[1], x[1], one=one) for x in w):
                        ctx.fail({"task": dict(task, lo=idx[n], hi=idx[n] + 1), "leaf": list(leaf), "name": nu},
                                 f"pattern {p} shape {task['shape']}: cell {tuple(leaf)} has ({nu},{nv}) = {v}, expected {w[:4]}",
                                 "value")
                    ctx.trace({"pattern": [str(x) for x in p], "agg": agg, "value": str(v)}, outcome=str(v))
            ctx.state((kind, task.get("pal"), task["fill"], task.get("fill2"), task["shape"], idx[n]))


# ------------------------------------------------------------------ splitting
def rules():
    out = []
    for thr, lb, ub, lock, mdp in ((1.0, 0.0, 1.0, None, 1), (1.5, 0.25, 0.75, None, 1), (0.5, 0.0, 0.5, False, 1),
                                   (1.0, 0.0, 1.0, True, 1), (2.0, 0.0, 0.5, True, 1), (1.0, 0.5, 1.0, None, 1),
                                   (1.0, 0.0, 1.0, None, 3), (0.0, 0.0, 0.75, True, 2)):
        r = {"threshold": thr, "lower_bound": lb, "upper_bound": ub}
        if lock is not None:
            r["split_lock"] = lock
        out.append((r, mdp))
    return out


def curl_rules():
    out = []
    for thr, lb, ub, lock in ((0.75, 0.0, 1.0, None), (0.25, 0.25, 0.75, None), (1.25, 0.0, 1.0, True), (0.0, 0.0, 0.5, True)):
        r = {"threshold": thr, "lower_bound": lb, "upper_bound": ub}
        if lock is not None:
            r["split_lock"] = lock
        out.append((r, 0 if len(out) % 2 else 1))
    return out


def dmag_patterns(src):
    return list(itertools.product(((N,) if src[:5] == "table" else ()) + VECS, repeat=4))


DSITES = [(3, 3), (13, 3), (5, 13), (13, 13)]


def classify(frac, r):
    if frac <= r["lower_bound"]:
        return "CLR"
    if frac >= r["upper_bound"]:
        return "HOM" if r.get("split_lock") else "CLR"
    return "HET"


def near(a, b):
    return abs(a - b) < 1e-9


def dmag_verdict(r, pts, rule, mdp, src):
    vs = vectors(r, pts, src)
    if len(vs) < mdp or not vs:
        return "CLR"
    m = [sum(v[i] for v in vs) / len(vs) for i in (0, 1)]
    d = [math.hypot(v[0] - m[0], v[1] - m[1]) for v in vs]
    if any(near(x, rule["threshold"]) and x != 0 for x in d):
        return None                                     # rounding decides
    return classify(sum(x > rule["threshold"] + 1e-12 for x in d) / len(d), rule)


LATS = {"2x2": (2, 2), "3x2": (3, 2), "2x3": (2, 3)}


def curl_patterns(lat):
    nx, ny = LATS[lat]
    return list(itertools.product(CVEC if lat == "2x2" else (CVEC[0], (2.0, -1.0)), repeat=nx * ny))


def gradient(f, n):
    """Unit-spaced central differences, one-sided at the ends."""
    out = []
    for i in range(n):
        if i == 0:
            out.append(f(1) - f(0))
        elif i == n - 1:
            out.append(f(n - 1) - f(n - 2))
        else:
            out.append((f(i + 1) - f(i - 1)) / 2)
    return out


def curl_verdict(r, pts, rule, mdp, src):
    ins = {(x, y): v for x, y, v in pts if r.x < x < r.x + r.w and r.y < y < r.y + r.h}
    if len(ins) < mdp or not ins:
        return "CLR"
    xs, ys = sorted({k[0] for k in ins}), sorted({k[1] for k in ins})
    if len(xs) < 2 or len(ys) < 2:
        return "CLR"
    curl = []
    for i in range(len(xs)):
        for j in range(len(ys)):
            dvdx = gradient(lambda k: ins[(xs[k], ys[j])][1], len(xs))[i]
            dudy = gradient(lambda k: ins[(xs[i], ys[k])][0], len(ys))[j]
            curl.append(dvdx - dudy)
    if src[-1] == "2":
        curl += [2 * c for c in curl]                   # the field of the second date is twice that of the first
    a = sum(c > rule["threshold"] for c in curl)
    if a != sum(abs(c) > rule["threshold"] for c in curl):
        return None
    return classify(a / len(curl), rule)


def subdivide(cell, pts, rule, mdp, depth, verdict, src):
    out, stack = [], [(cell, 0)]
    while stack:
        r, d = stack.pop()
        v = verdict(r, pts, rule, mdp, src) if d < depth else "CLR"
        if v is None:
            return None
        if v == "HET":
            stack += [(c, d + 1) for c in children(r)]
        else:
            out.append(r)
    return sorted(out)


def splitting(ctx, task, pats, idx):
    curl = task["kind"] == "curl"
    grids = CGRID if curl else GRIDS
    cfg0 = config(grids[task["grid"]])
    reg = region_of(cfg0)
    cells = base_cells(cfg0)
    k = (idx[0] // 40) * 7 % len(cells)
    cells = (cells[k:] + cells[:k])[:len(pats)]
    rule, mdp = (curl_rules() if curl else rules())[task["cfg"]]
    if curl:
        nx, ny = LATS[task["lat"]]
        # unit-spaced lattice around the middle of the cell, so that quarters hold 1 to 2 points per axis
        data = [[(c.x + c.w / 2 - 0.5 + i, c.y + c.h / 2 - 0.5 + j, p[i * ny + j]) for i in range(nx) for j in range(ny)]
                for c, p in zip(cells, pats)]
    else:
        data = [place(c, p, DSITES) for c, p in zip(cells, pats)]
    depth = 2
    rows = [(y, abs_long(reg, x), v) for d in data for x, y, v in d]
    cond = {"splitting_conditions": [{"u,v": {task["kind"]: dict(rule)}}]}
    src = source("mean" if task["src"] == "grid" else task["src"], "u,v", rows, reg, "MEAN", **cond)
    bcase = {"task": dict(task, lo=idx[0], hi=idx[-1] + 1)}
    with ctx.guard(bcase, "build"):
        o = Obs(reg, build_json(config(grids[task["grid"]], [src], depth, mdp)))
        ctx.step()
        if o.errors:
            ctx.fail(bcase, "; ".join(o.errors[:3]), "cells")
            return
        leaves = o.leaves()
        for n, (cell, p) in enumerate(zip(cells, pats)):
            want = subdivide(cell, data[n], rule, mdp, depth, curl_verdict if curl else dmag_verdict,
                             task["src"])
            if want is None:
                ctx.count("left_open")
                continue
            got = [r for r in leaves if cell.x <= r.x < cell.x + cell.w and cell.y <= r.y < cell.y + cell.h]
            if got != want:
                ctx.fail({"task": dict(task, lo=idx[n], hi=idx[n] + 1)},
                         f"{task['kind']} {rule} minimum {mdp}, vectors {p}: subdivided into {len(got)} cells, the rule demands "
                         f"{len(want)}", task["kind"])
            ctx.state((task["kind"], task["src"], task.get("lat"), task["cfg"], idx[n]))
            ctx.trace({"pattern": [str(x) for x in p], "cells": len(got)}, outcome=(task["kind"], len(got)))


def run(task, ctx):
    k = task["kind"]
    if k == "members":
        return c05.run(task["members"], ctx)
    if k == "dmag":
        pats, f = dmag_patterns(task["src"]), splitting
    elif k == "curl":
        pats, f = curl_patterns(task["lat"]), splitting
    else:
        pats, f = patterns(k, task["n"], task.get("pal")), values
    for lo in range(task["lo"], min(task["hi"], len(pats)), 40):
        idx = list(range(lo, min(lo + 40, task["hi"], len(pats))))
        if idx:
            f(ctx, task, [pats[i] for i in idx], idx)


def replay_case(case, ctx):
    if "region" in case:
        return c05.replay_case(case, ctx)
    run(case["task"], ctx)
