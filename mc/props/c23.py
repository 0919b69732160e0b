"""C23: the validation tools judge a mesh by what it says."""
import copy
import itertools
import json
import math
import os

import numpy as np
import pandas as pd

from mc import env
from mc.builds import REGIONS, all_regions, rect_list, shape_space, shape_cfg, to_shape
from mc.meshes import config, region_cfg, region_of, build_env, Obs, csv, abs_long

ID = "C23"
LEVEL = "model_checking"
RULE = ("a state is (mesh, data points) or a pair of mesh documents; a transition is one call of the real validator or "
        "comparator; the oracle scores every point against the rectangle that holds it and compares the documents "
        "cell by cell")
ASSUMPTIONS = ["points on the outer lower and western edges, and at exactly 180 degrees, are left open",
               "whether an attribute that only one of two common cells has counts as a difference in value is left open",
               "the data in sampled validation have the same distance from their cell's value everywhere, so that the "
               "expected score does not depend on the random samples"]


def bounds(tier):
    k = 1 if tier == "quick" else 2
    return (f"full validation: {len(REGIONS)} regions x meshes with <= {k} splits x quarter-cell lattice with edges and "
            "outside points, each point alone and all points together, with missing values, scalar and vector; "
            "comparison: every set of <= 2 edits of a document of 5 to 10 cells, in both directions, 4 comparisons x 2 "
            "return types; sampled validation: 6 regions x split or not x missing values or not x file kind, windows at "
            "every 1/64 degree offset class")


def tasks(tier):
    k = 1 if tier == "quick" else 2
    t = []
    for r in REGIONS:
        n = len(shape_space(r, k, 2))
        for lo in range(0, n, 6):
            t.append({"kind": "full", "region": r, "k": k, "lo": lo, "hi": min(n, lo + 6)})
    for b in range(len(BASES)):
        for part in range(8):
            t.append({"kind": "compare", "base": b, "part": part})
    for r in SAMPLED:
        for split, nan, fmt in itertools.product((0, 1), (0, 1), ("csv", "nc")):
            t.append({"kind": "sampled", "region": r, "split": split, "nan": nan, "fmt": fmt})
    t.append({"kind": "sampler"})
    return t


# ------------------------------------------------------------------ full validation
def value_of(i):
    """values of cell number i: scalar, u, v; all sums of squares exact in binary"""
    return 1.0 + 8 * i, 3.0 * i - 2, 5.0 - 4 * i


def full_doc(region, shape):
    cfg = shape_cfg(region, shape)
    reg = region_of(cfg)
    j = build_env(cfg).to_json()
    for n, c in enumerate(j["cellboxes"]):
        c["val"], c["uu"], c["vv"] = value_of(n)
    o = Obs(reg, j)
    cells = [(o.cells[int(c["id"])], value_of(n)) for n, c in enumerate(j["cellboxes"])]
    return reg, j, cells


def lattice(reg, cells):
    """(lat, long, the cells' values or None)"""
    xs = {q for r, _ in cells for q in (r.x + r.w / 4, r.x + r.w / 2, r.x + r.w)} | {0.0}
    ys = {q for r, _ in cells for q in (r.y + r.h / 4, r.y + r.h / 2, r.y + r.h)}
    if reg.W < 358:
        xs |= {-1.0, reg.W + 1.0}
    ys |= {q for q in (reg.lat_min - 1.0, reg.lat_max + 1.0) if abs(q) <= 90}
    out = []
    for y in sorted(ys):
        for x in sorted(xs):
            lon = float(abs_long(reg, x))
            if abs(lon) == 180:
                continue
            if x == 0.0 and reg.W != 360:
                continue
            xx = 360.0 if (x == 0.0 and reg.W == 360) else x
            home = [v for r, v in cells if r.y < y <= r.y + r.h and r.x < xx <= r.x + r.w]
            out.append((float(y), lon, home[0] if home else None))
    return out


def expect_full(pts):
    """pts: (value, u, v, home) with NaN allowed -> expected results"""
    ds = [abs(a - h[0]) for a, _, _, h in pts if h and a == a]
    dv = [math.hypot(u - h[1], v - h[2]) for _, u, v, h in pts if h and u == u and v == v]

    def mean(x):
        return sum(x) / len(x) if x else float("nan")
    return {"mean_err": mean(ds), "root_mean_squared_err": math.sqrt(mean([d * d for d in ds])) if ds else float("nan"),
            "mean_d_vector_mag": mean(dv),
            "root_mean_squared_d_vector_mag": math.sqrt(mean([d * d for d in dv])) if dv else float("nan")}


def score(ctx, case, j, ncells, pts, what):
    """pts: (lat, long, value, u, v, home)"""
    from meshiphi.mesh_validation.full_mesh_validator import FullMeshValidator
    df = pd.DataFrame({"lat": [p[0] for p in pts], "long": [p[1] for p in pts], "raw": [p[2] for p in pts],
                       "ru": [p[3] for p in pts], "rv": [p[4] for p in pts]})
    keep = df.copy()
    want = expect_full([p[2:] for p in pts])
    v = FullMeshValidator(copy.deepcopy(j), df)
    ctx.step(2)
    got = dict(v.validate_scalar("raw", "val"))
    if got.get("cellbox_count") != ncells:
        return ctx.fail(case, f"{what}: {got.get('cellbox_count')} cells counted, the mesh has {ncells}", "count")
    got.update(v.validate_vector(("ru", "rv"), ("uu", "vv")))
    for k, w in want.items():
        g = float(got[k])
        if (g == g) != (w == w) or (w == w and abs(g - w) > 1e-9 * max(1.0, abs(w))):
            return ctx.fail(case, f"{what}: {k} is {g}, every point against its own cell gives {w} "
                                  f"(points {[p[:3] for p in pts[:4]]}{' ...' if len(pts) > 4 else ''})", "score")
    if not df.equals(keep):
        return ctx.fail(case, f"{what}: the caller's data were changed", "mutated")


def full_one(ctx, rname, shape):
    case = {"kind": "full", "region": rname, "shape": rect_list(shape)}
    nan = float("nan")
    with ctx.guard(case, "full"):
        reg, j, cells = full_doc(all_regions()[rname], shape)
        lat = lattice(reg, cells)
        # the n-th point is off by an amount and in directions of its own
        pts = []
        for n, (y, lon, h) in enumerate(lat):
            s0, s1, s2 = ((1 if (n + n // 8) >> q & 1 else -1) for q in range(3))
            h0 = h or (0.0, 0.0, 0.0)
            pts.append((y, lon, h0[0] + s0 * (2.0 * (n % 7) + 1), h0[1] + s1 * 3.0 * (n % 5 + 1),
                        h0[2] + s2 * 4.0 * (n % 5 + 1), h))
        score(ctx, case, j, len(cells), pts, "all points")
        half = [tuple(nan if (n % 3 == 0 and q == 2) or (n % 4 == 1 and q == 3) else z for q, z in enumerate(p))
                for n, p in enumerate(pts)]
        score(ctx, case, j, len(cells), half, "missing values")
        score(ctx, case, j, len(cells), pts[::-1], "reversed")
        step = 1 if ctx.tier != "quick" else max(1, len(pts) // 24)
        for n in range(0, len(pts), step):
            if pts[n][5] is None:
                continue
            score(ctx, dict(case, point=list(pts[n][:2])), j, len(cells), [pts[n]], f"point {pts[n][:2]}")
            ctx.state((rname, rect_list(shape), pts[n][:2]))
        ctx.trace({"region": rname, "cells": len(cells), "points": len(pts)}, outcome=len(cells))


# ------------------------------------------------------------------ comparison
BASES = [("plain", 1), ("am_straddle", 1), ("pair", 2)]


def base_doc(b):
    rname, k = BASES[b]
    region = all_regions()[rname]
    shape = shape_space(rname, k, 2)[-1]
    cfg = shape_cfg(region, shape)
    j = json.loads(json.dumps(build_env(cfg).to_json()))
    for n, c in enumerate(j["cellboxes"]):
        c["sic"] = 12.345678 * (n + 1)
        c["elev"] = -1234.5678 + n
        c["zero"] = 0.0
        c["flag"] = bool(n % 2)
        c["speed"] = [26.123456, 13.0 + n, 7.5]
    return j


def edits(j):
    n = len(j["cellboxes"])
    out = []
    for i in sorted({0, 1, n - 1}):
        out += [("val", i, "sic", "beyond"), ("val", i, "sic", "within"), ("val", i, "elev", "sign"),
                ("val", i, "elev", "within"), ("val", i, "zero", "one"), ("val", i, "sic", "nan"),
                ("val", i, "flag", "flip"), ("list", i, "beyond"), ("list", i, "within"), ("list", i, "shorter"),
                ("add", i), ("drop", i), ("remove", i), ("move", i), ("nbdrop", i), ("nbperm", i), ("nbcase", i)]
    out += [("reverse",), ("addall",), ("moveall",)]
    return out


def apply(j, e):
    """apply edit e to document j, in place; False if it does not apply"""
    k = e[0]
    cbs = j["cellboxes"]
    if k == "reverse":
        cbs.reverse()
        return True
    if k == "addall":
        for c in cbs:
            c["extra"] = 1.5
        return True
    if k == "moveall":
        for c in cbs:
            c["geometry"] = c["geometry"].replace("POLYGON", "POLYGON ")
        return True
    i = e[1]
    if i >= len(cbs):
        return False
    c = cbs[i]
    if k == "val":
        a, how = e[2:]
        v = c.get(a)
        if v is None:
            return False
        c[a] = {"beyond": lambda: v * 1.01, "within": lambda: v * (1 + 1e-9), "sign": lambda: -v, "one": lambda: 0.001,
                "nan": lambda: None, "flip": lambda: not v}[how]()
    elif k == "list":
        s = c["speed"]
        c["speed"] = {"beyond": [s[0] * 1.01] + s[1:], "within": [s[0] * (1 + 1e-9)] + s[1:], "shorter": s[:-1]}[e[2]]
    elif k == "add":
        c["more"] = 3.5
    elif k == "drop":
        c.pop("zero", None)
    elif k == "remove":
        gone = str(c["id"])
        cbs.pop(i)
        j["neighbour_graph"].pop(gone)
        for nb in j["neighbour_graph"].values():
            for q in nb:
                nb[q] = [x for x in nb[q] if str(x) != gone]
    elif k == "move":
        c["geometry"] = c["geometry"].replace("POLYGON", "POLYGON  ")
    else:
        nb = j["neighbour_graph"][str(c["id"])]
        full = [q for q in sorted(nb, key=int) if nb[q]]
        if not full:
            return False
        q = full[0]
        if k == "nbdrop":
            nb[q] = nb[q][1:]
        elif k == "nbperm":
            for q in full:
                nb[q] = nb[q][::-1]
        elif k == "nbcase":
            nb[str(-int(q))], nb[q] = nb[q], nb[str(-int(q))]
            if sorted(map(str, nb[q])) == sorted(map(str, nb[str(-int(q))])):
                return False
    return True


def sig(v):
    """a value as the comparison sees it: four significant digits"""
    if isinstance(v, bool) or v is None or isinstance(v, str):
        return v
    if isinstance(v, list):
        return [sig(x) for x in v]
    if isinstance(v, (int, float)):
        return "%.3e" % v if v else 0.0
    return v


def expect_compare(m1, m2):
    """{function: (must, may)}: sets of ids of m2"""
    a = {c["geometry"]: c for c in m1["cellboxes"]}
    b = {c["geometry"]: c for c in m2["cellboxes"]}
    ids = {str(c["id"]): c for c in m2["cellboxes"]}
    common = [g for g in b if g in a]
    out = {"compare_cellbox_boundaries": ({str(b[g]["id"]) for g in b if g not in a}, set())}
    k1 = {k for c in m1["cellboxes"] for k in c}
    k2 = {k for c in m2["cellboxes"] for k in c}
    must, may = set(), set()
    for g in common:
        i = str(b[g]["id"])
        for k in (k1 & k2) - {"geometry"}:
            if k in a[g] and k in b[g]:
                if sig(a[g][k]) != sig(b[g][k]):
                    must.add(i)
            elif k in a[g] or k in b[g]:
                may.add(i)
    out["compare_cellbox_values"] = (must, may)
    out["compare_cellbox_attributes"] = ({str(b[g]["id"]) for g in common if set(a[g]) != set(b[g])}, set())
    n1, n2 = m1["neighbour_graph"], m2["neighbour_graph"]

    def norm(nb):
        return {str(k): sorted(map(str, v)) for k, v in nb.items()}
    out["compare_neighbour_graph_values"] = ({i for i in n2 if i in n1 and norm(n1[i]) != norm(n2[i])
                                              and i in ids}, set())
    return out


def compare(ctx, case, m1, m2):
    from meshiphi.mesh_validation.mesh_comparator import MeshComparator
    k1, k2 = copy.deepcopy(m1), copy.deepcopy(m2)
    want = expect_compare(m1, m2)
    geom = {str(c["id"]): c["geometry"] for c in m2["cellboxes"]}
    for f, (must, may) in want.items():
        for rt in (None, "df", "id"):
            ctx.step()
            r = getattr(MeshComparator(), f)(m1, m2, return_type=rt) if rt else getattr(MeshComparator(), f)(m1, m2)
            if rt == "id":
                got = [str(x) for x in list(r)]
            else:
                got = [str(x) for x in r["id"]] if len(r) else []
                gs = [str(x) for x in r.index] if len(r) else []
                if gs != [geom.get(i) for i in got]:
                    return ctx.fail(case, f"{f} ({rt}): rows {gs} do not belong to the cells {got}", "rows")
            if len(set(got)) != len(got) or not must <= set(got) <= must | may:
                return ctx.fail(case, f"{f} ({rt}): reports {sorted(got)}, the documents differ in "
                                      f"{sorted(must)}" + (f" (perhaps {sorted(may)})" if may else ""), f)
    if m1 != k1 or m2 != k2:
        return ctx.fail(case, "comparing changed a document", "mutated")
    ctx.trace({"edits": case["edits"], "differences": {f: sorted(w[0]) for f, w in want.items()}},
              outcome=tuple(bool(w[0]) for w in want.values()))


def edit_sets(j, depth):
    e = edits(j)
    for n in range(depth + 1):
        for c in itertools.combinations(range(len(e)), n):
            yield [e[q] for q in c]


def compare_one(ctx, b, es, j):
    m2 = copy.deepcopy(j)
    for e in es:
        if not apply(m2, e):
            return
    if not m2["cellboxes"]:
        return
    for order in (0, 1):
        case = {"kind": "compare", "base": b, "edits": [list(e) for e in es], "order": order}
        with ctx.guard(case, "compare"):
            compare(ctx, case, *((j, m2) if order == 0 else (m2, copy.deepcopy(j))))
        ctx.state((b, es, order))


def compare_part(ctx, b, part):
    j = base_doc(b)
    depth = 2 if (b == 0 or ctx.tier != "quick") else 1
    for n, es in enumerate(edit_sets(j, depth)):
        if n % 8 == part:
            compare_one(ctx, b, es, j)


# ------------------------------------------------------------------ sampled validation
SAMPLED = {
    "plain": region_cfg(1.0, 1.5, 10.0, 10.5, 0.25, 0.25),
    "origin": region_cfg(-0.25, 0.25, -0.25, 0.25, 0.25, 0.25),
    "south": region_cfg(-70.5, -70.0, -60.5, -60.0, 0.25, 0.25),
    "oblong": region_cfg(50.0, 50.25, -20.0, -19.25, 0.25, 0.25),
    "am_edge": region_cfg(1.0, 1.5, 179.75, -179.75, 0.25, 0.25),
    "am_straddle": region_cfg(-1.5, -1.0, 179.875, -179.625, 0.25, 0.25),
}
STEP = 1 / 32
OFF = 8.0          # every point differs this much from its cell's value


def sampled_data(reg, bases, split, nan):
    """points (lat, long, value or None, cell value): a chequerboard of m + OFF and m - OFF, m of the base cell"""
    pts = []
    for b, r in enumerate(bases):
        m = 1000.0 if (split and b == 0) else 16.0 * (b + 1)
        nx, ny = round(r.w / STEP), round(r.h / STEP)
        for jy in range(1, ny + 1):
            for ix in range(1, nx + 1):
                s = 1 if (ix + jy) % 2 else -1
                v = m + s * OFF
                # a missing pair (one above, one below) in every quarter of the cell
                if nan and jy % 4 == 2 and ix % 4 in (2, 3):
                    v = None
                pts.append((r.y + jy * STEP, abs_long(reg, r.x + ix * STEP), v, m))
    return pts


def write_nc(pts):
    import xarray as xr
    lats = sorted({p[0] for p in pts})
    lons = sorted({p[1] for p in pts})
    a = np.full((len(lats), len(lons)), np.nan)
    li = {v: n for n, v in enumerate(lats)}
    lo = {v: n for n, v in enumerate(lons)}
    for y, x, v, _ in pts:
        a[li[y], lo[x]] = np.nan if v is None else v
    p = os.path.join(env.scratch(), "sampled.nc")
    if os.path.exists(p):
        os.remove(p)
    xr.Dataset({"elevation": (("lat", "lon"), a)}, coords={"lat": lats, "lon": lons}).to_netcdf(p)
    return p


def sampled_one(ctx, rname, split, nan, fmt):
    from meshiphi.mesh_validation.mesh_validator import MeshValidator
    case = {"kind": "sampled", "region": rname, "split": split, "nan": nan, "fmt": fmt}
    with ctx.guard(case, "sampled", timeout=600):
        region = SAMPLED[rname]
        cfg = config(region)
        reg = region_of(cfg)
        from mc.meshes import base_cells
        pts = sampled_data(reg, base_cells(cfg), split, nan)
        name = "elevation"
        if fmt == "csv":
            files, loader = [csv([p[:3] for p in pts], f"lat,long,{name}")], "scalar_csv"
        else:
            files, loader = [write_nc(pts)], "gebco"
        src = {"loader": loader, "params": {
            "files": files, "data_name": name, "aggregate_type": "MEAN",
            "splitting_conditions": [{name: {"threshold": 1000.0, "lower_bound": 0.1, "upper_bound": 0.9}}]}}
        cfg = config(region, [src], 1)
        path = os.path.join(env.scratch(), "sampled_config.json")
        with open(path, "w") as f:
            json.dump({"config": {"mesh_info": cfg}}, f)
        v = MeshValidator(path)
        n = len(v.env_mesh.to_json()["cellboxes"])
        want = len(base_cells(cfg)) + (3 if split else 0)
        if n != want:
            raise RuntimeError(f"harness: {n} cells, {want} expected")
        for k in (1, 4, 16) if ctx.tier == "quick" else (1, 2, 4, 8, 16, 64):
            ctx.step()
            d = v.validate_mesh(k)
            if not abs(d - OFF) < 1e-9:
                return ctx.fail(case, f"{k} samples: the score is {d}, every point is {OFF} from its cell's value",
                                "sampled-score")
            ctx.state((rname, split, nan, fmt, k))
        if hasattr(v, "get_value_from_data") and hasattr(v, "get_values_from_mesh"):
            windows(ctx, case, reg, v, pts)
        ctx.trace({"case": case, "cells": n}, outcome=n)


def windows(ctx, case, reg, v, pts):
    """Every start of a window at odd 64ths of a degree (so that no edge falls on a point)."""
    ln = 0.1
    step = 1 if ctx.tier != "quick" else 3
    rel = [(y, (x - reg.long_min) % 360, val, m) for y, x, val, m in pts if val is not None]
    for a in range(0, round(reg.H * 32), step):
        for b in range(0, round(reg.W * 32), step):
            y0, x0 = reg.lat_min + (2 * a + 1) / 64, (2 * b + 1) / 64
            s = [y0, abs_long(reg, x0)]
            ctx.step(2)
            got = sorted(zip(map(float, v.get_value_from_data(s)), map(float, v.get_values_from_mesh(s))))
            nd, nm = len(v.get_value_from_data(s)), len(v.get_values_from_mesh(s))
            y1, x1 = min(y0 + ln, reg.lat_max), min(x0 + ln, reg.W)
            want = sorted((val, m) for y, x, val, m in rel if y0 < y <= y1 and x0 < x <= x1)
            if nd != nm or len(got) != len(want) or any(abs(p[0] - q[0]) > 1e-9 or abs(p[1] - q[1]) > 1e-9
                                                        for p, q in zip(got, want)):
                return ctx.fail(dict(case, sample=s), f"window at {s}: {nd} data values and {nm} mesh values "
                                                      f"{got[:3]}, the window holds {len(want)} points {want[:3]}", "window")
            ctx.state((case["region"], s, case["split"], case["nan"], case["fmt"]))


def sampler_one(ctx):
    from meshiphi.mesh_validation.sampler import Sampler
    rs = [[0, 1], [-5, 5], [-180, -170], [10.5, 10.5], [-90, 90]]
    case = {"kind": "sampler"}
    with ctx.guard(case, "sampler"):
        for d in (1, 2, 3):
            for combo in itertools.product(rs, repeat=d):
                for n in (0, 1, 2, 8, 16):
                    ctx.step()
                    s = Sampler(d, n).generate_samples([list(c) for c in combo])
                    ok = s.shape == (n, d) and all(combo[q][0] <= x[q] <= combo[q][1] for x in s for q in range(d))
                    if not ok:
                        return ctx.fail(dict(case, ranges=combo, n=n), f"{n} samples of {combo}: {s.tolist()}", "sampler")
                    ctx.state((combo, n))
                for wrong in (combo + (rs[0],), combo[:-1]):
                    ctx.step()
                    try:
                        Sampler(d, 2).generate_samples([list(c) for c in wrong])
                    except ValueError:
                        continue
                    return ctx.fail(dict(case, ranges=wrong), f"{len(wrong)} ranges accepted for {d} dimensions", "sampler")
        ctx.trace({"sampler": "all ranges"}, outcome=1)


def run(task, ctx):
    k = task["kind"]
    if k == "full":
        for s in shape_space(task["region"], task["k"], 2)[task["lo"]:task["hi"]]:
            full_one(ctx, task["region"], s)
    elif k == "compare":
        compare_part(ctx, task["base"], task["part"])
    elif k == "sampled":
        sampled_one(ctx, task["region"], task["split"], task["nan"], task["fmt"])
    else:
        sampler_one(ctx)


def replay_case(case, ctx):
    if "task" in case:
        return run(case["task"], ctx)
    k = case["kind"]
    if k == "full":
        full_one(ctx, case["region"], to_shape(case["shape"]))
    elif k == "compare":
        compare_one(ctx, case["base"], [tuple(e) for e in case["edits"]], base_doc(case["base"]))
    elif k == "sampled":
        sampled_one(ctx, case["region"], case["split"], case["nan"], case["fmt"])
    else:
        sampler_one(ctx)
