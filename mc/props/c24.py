"""C24: pictures (GeoTIFF, PNG) show every cell's value in its place."""
import json
import math
import os

import numpy as np

from mc import env
from mc.builds import REGIONS, all_regions, rect_list, shape_space, shape_cfg, to_shape
from mc.meshes import region_of, build_env, Obs, load, abs_long

ID = "C24"
LEVEL = "model_checking"
RULE = ("a state is (mesh, values, export parameters, pixel); a transition is one export by the real code, with the real "
        "GDAL and matplotlib, read back pixel by pixel; the oracle is the cell rectangle that holds the pixel's centre")
ASSUMPTIONS = ["GDAL's gdaldem and warp and matplotlib's renderer are trusted",
               "pixels whose centre lies on a cell edge may show any touching cell",
               "the colour of missing values with a user's colour table, and the middle of the default scale, are open"]

# value -> colour of the table; exact entries, so that no interpolation is involved
TABLE = {0.0: (10, 20, 30), 30.0: (40, 50, 60), 60.0: (70, 80, 90), 100.0: (100, 110, 120), 150.0: (200, 10, 60)}
VALUES = list(TABLE)
WARPS = [("south", "3031"), ("south", "3857"), ("plain", "3857"), ("north", 3857), ("am_straddle", "3031"), ("north", "3413")]


def bounds(tier):
    k = 1 if tier == "quick" else 2
    return (f"GeoTIFF: {len(REGIONS)} regions x every mesh with <= {k} splits x {len(resolutions(tier))} sampling resolutions (square and not), "
            "every pixel; values as numbers, lists, booleans, missing, infinite, constant, fractional; both spellings of "
            f"the colour table; {len(WARPS)} projections; awkward paths; the export_mesh command; PNG: the same meshes x colour maps and booleans")


def resolutions(tier):
    r = [(8, 8), (12, 6), (7, 9)]
    return r if tier == "quick" else r + [(1, 1), (5, 16), (16, 3)]


def tasks(tier):
    k = 1 if tier == "quick" else 2
    t = []
    for r in REGIONS:
        n = len(shape_space(r, k, 2))
        picks = list(range(n))
        if tier == "quick":
            picks = sorted({0, 1, n // 2, n - 1} & set(picks))
        for lo in range(0, len(picks), 4):
            t.append({"kind": "tif", "region": r, "k": k, "picks": picks[lo:lo + 4]})
            t.append({"kind": "png", "region": r, "k": k, "picks": picks[lo:lo + 4][-2:]})
    for r in ("plain", "am_straddle"):
        t.append({"kind": "values", "region": r})
        t.append({"kind": "pngvalues", "region": r})
    for n in range(len(WARPS)):
        t.append({"kind": "warp", "n": n})
    t.append({"kind": "paths"})
    t.append({"kind": "cli"})
    return t


def mesh(rname, shape, values):
    """an EnvironmentMesh with data 'val'; -> region, mesh, [(Rect, value)]"""
    cfg = shape_cfg(all_regions()[rname], shape)
    reg = region_of(cfg)
    j = build_env(cfg).to_json()
    for n, c in enumerate(j["cellboxes"]):
        c["val"] = values[n % len(values)]
        c["flag"] = n % 3 == 0
    o = Obs(reg, j)
    m = load(j)
    cells = [(o.cells[int(c["id"])], c["val"], c["flag"]) for c in j["cellboxes"]]
    return reg, m, cells


def export(m, fmt, params, path=None):
    d = env.scratch()
    if path is None:
        path = os.path.join(d, "picture." + fmt)
    if os.path.exists(path):
        os.remove(path)
    p = None
    if params is not None:
        p = os.path.join(d, "params.json")
        with open(p, "w") as f:
            json.dump(params, f)
    so = os.dup(1)
    nul = os.open(os.devnull, os.O_WRONLY)
    try:
        os.dup2(nul, 1)             # gdaldem reports its progress there
        m.save(path, format=fmt, format_params=p)
    finally:
        os.dup2(so, 1)
        os.close(so)
        os.close(nul)
    return path


def table(entries=TABLE):
    p = os.path.join(env.scratch(), "colours.txt")
    with open(p, "w") as f:
        for v, c in sorted(entries.items()):
            f.write(f"{v} {c[0]} {c[1]} {c[2]}\n")
    return p


def read_tif(path):
    from osgeo import gdal
    gdal.UseExceptions()
    d = gdal.Open(path)
    a, gt, srs = d.ReadAsArray(), d.GetGeoTransform(), d.GetSpatialRef()
    code = srs.GetAuthorityCode(None) if srs else None
    d = None
    return a, gt, code


def touching(reg, cells, x, y):
    eps = 1e-9
    return [(v, f) for r, v, f in cells if r.x - eps <= x <= r.x + r.w + eps and r.y - eps <= y <= r.y + r.h + eps]


def check_tif(ctx, case, reg, cells, path, res, want):
    """want(value) -> colour or None (open)"""
    a, gt, code = read_tif(path)
    nx, ny = res
    if a.ndim != 3 or a.shape[0] < 3 or a.shape[1:] != (ny, nx):
        return ctx.fail(case, f"a picture of {nx} x {ny} pixels was asked for, it has shape {a.shape}", "tif-size")
    if str(code) != "4326":
        return ctx.fail(case, f"projection {code}", "tif-projection")
    exp = (reg.long_min, reg.W / nx, 0, reg.lat_max, 0, -reg.H / ny)
    dx = (gt[0] - exp[0]) % 360
    if min(dx, 360 - dx) > 1e-9 or any(abs(p - q) > 1e-9 * max(1, abs(q)) for p, q in zip(gt[1:], exp[1:])):
        return ctx.fail(case, f"the picture is placed at {gt}, the mesh needs {exp}", "tif-place")
    for row in range(ny):
        for col in range(nx):
            x, y = (col + 0.5) * reg.W / nx, reg.lat_max - (row + 0.5) * reg.H / ny
            ok = [want(v) for v, _ in touching(reg, cells, x, y)]
            if None in ok:
                continue
            got = tuple(int(q) for q in a[:3, row, col])
            if not any(max(abs(p - q) for p, q in zip(got, c)) <= 1 for c in ok):
                return ctx.fail(case, f"pixel ({col}, {row}) at ({y}, {abs_long(reg, x)}) has colour {got}, its cell's "
                                      f"value has {ok}", "tif-pixel")
            ctx.state((case["region"], case["shape"], tuple(res), row, col, str(case.get("values"))))


def tif_one(ctx, rname, shape):
    for n, res in enumerate(resolutions(ctx.tier)):
        case = {"kind": "tif", "region": rname, "shape": rect_list(shape), "res": list(res)}
        with ctx.guard(case, "tif"):
            reg, m, cells = mesh(rname, shape, VALUES)
            ctx.step()
            key = ("color_conf", "colour_conf")[n % 2]
            path = export(m, "tif", {"data_name": "val", "sampling_resolution": list(res), key: table()})
            check_tif(ctx, case, reg, cells, path, res, lambda v: TABLE[v])
            ctx.trace({"region": rname, "cells": len(cells), "res": list(res)}, outcome=len(cells))


# kinds of values: (name, values, {value key: expected colour}) with a table / without
def value_cases():
    nan, inf = float("nan"), float("inf")
    out = []

    def t(v):
        if v is None or isinstance(v, float) and v != v:
            return None
        if isinstance(v, list):
            v = sum(v) / len(v)
        if abs(v) == inf or v != v:
            return None
        return TABLE[float(v)]
    out.append(("numbers", [0.0, 30.0, 60.0, 100.0], True, t))
    out.append(("ints", [0, 30, 60, 100], True, t))
    out.append(("missing", [0.0, nan, 60.0, 100.0], True, t))
    out.append(("all missing", [nan], True, t))
    out.append(("lists", [[0.0, 60.0], [50.0, 70.0], 100.0, [0.0, 0.0, 0.0]], True, t))
    out.append(("longer lists", [[0.0, 30.0, 150.0], [0.0, 0.0, 0.0, 120.0], [150.0], [90.0, 0.0, 0.0]], True, t))
    out.append(("infinite list", [[inf, 60.0], 30.0], True, t))
    out.append(("infinite", [inf, 30.0], True, t))
    out.append(("minus infinite", [-inf, 30.0], True, t))
    out.append(("constant", [60.0], True, t))

    def d(lo, hi):
        def f(v):
            if isinstance(v, float) and v != v:
                return (255, 0, 0)
            if isinstance(v, list):
                v = sum(v) / len(v)
            if abs(v) == inf:
                return (255, 0, 0)
            return {lo: (255, 255, 255), hi: (0, 0, 139)}.get(v) if lo != hi else None
        return f
    out.append(("default", [0.0, 40.0, 60.0, 100.0], False, d(0.0, 100.0)))
    out.append(("default fraction", [0.1, 0.4, 0.9], False, d(0.1, 0.9)))
    out.append(("default negative", [-5000.0, -10.0, 200.0], False, d(-5000.0, 200.0)))
    out.append(("default missing", [nan, 1.0, 2.0], False, d(1.0, 2.0)))
    out.append(("default all missing", [nan], False, d(0.0, 0.0)))
    out.append(("default infinite", [inf, 5.0, 7.0], False, d(5.0, 7.0)))
    out.append(("default minus infinite", [-inf, 5.0, 7.0], False, d(5.0, 7.0)))
    out.append(("default both infinite", [-inf, 5.0, inf, 7.0], False, d(5.0, 7.0)))
    out.append(("default lists", [[1.0, 3.0], [inf, 1.0], [5.0, 7.0]], False, d(2.0, 6.0)))
    out.append(("default constant", [5.0], False, d(5.0, 5.0)))
    return out


def values_one(ctx, rname, name):
    shape = shape_space(rname, 1, 2)[-1]
    vals, tab, want = next(c[1:] for c in value_cases() if c[0] == name)
    case = {"kind": "values", "region": rname, "shape": rect_list(shape), "values": name}
    with ctx.guard(case, "values"):
        reg, m, cells = mesh(rname, shape, vals)
        ctx.step()
        p = {"data_name": "val", "sampling_resolution": [8, 4]}
        if tab:
            p["color_conf"] = table()
        check_tif(ctx, case, reg, cells, export(m, "tif", p), (8, 4), want)
        ctx.trace({"region": rname, "values": name}, outcome=name)


def warp_one(ctx, n):
    """another projection: the picture shows every cell's colour at the cell's centre"""
    import pyproj
    rname, proj = WARPS[n]
    for k, shape in enumerate(shape_space(rname, 1, 2)):
        if ctx.tier == "quick" and k not in (0, 1):
            continue
        case = {"kind": "warp", "n": n, "region": rname, "shape": rect_list(shape)}
        with ctx.guard(case, "warp"):
            reg, m, cells = mesh(rname, shape, VALUES)
            ctx.step()
            path = export(m, "tif", {"data_name": "val", "sampling_resolution": [64, 64], "projection": proj,
                                     "color_conf": table()})
            a, gt, code = read_tif(path)
            if str(code) != str(proj):
                return ctx.fail(case, f"projection {proj} was asked for, the picture has {code}", "warp-projection")
            tr = pyproj.Transformer.from_crs(4326, int(proj), always_xy=True)
            for r, v, _ in cells:
                X, Y = tr.transform(abs_long(reg, r.x + r.w / 2), r.y + r.h / 2)
                col, row = math.floor((X - gt[0]) / gt[1]), math.floor((Y - gt[3]) / gt[5])
                if not (0 <= row < a.shape[1] and 0 <= col < a.shape[2]):
                    return ctx.fail(case, f"the centre of cell {r} lies outside the picture", "warp-place")
                got = tuple(int(q) for q in a[:3, row, col])
                if max(abs(p - q) for p, q in zip(got, TABLE[v])) > 1:
                    return ctx.fail(case, f"the centre of cell {r} has colour {got}, not {TABLE[v]}", "warp-pixel")
                ctx.state((rname, str(proj), rect_list(shape), r))
            ctx.trace({"region": rname, "projection": str(proj), "cells": len(cells)}, outcome=(str(proj), len(cells)))


def paths_one(ctx):
    """exports leave other files alone, whatever the paths are called and wherever they run"""
    shape = shape_space("plain", 1, 2)[-1]
    base = os.path.join(env.scratch(), "pics")
    os.makedirs(base, exist_ok=True)
    here = os.getcwd()
    import tempfile
    tmp = os.path.join(base, "tmp")
    os.makedirs(tmp, exist_ok=True)
    old = tempfile.tempdir, os.environ.get("TMPDIR")
    tempfile.tempdir = os.environ["TMPDIR"] = tmp
    try:
        for sub in ("plain", "with space", "it's", "a;b", "$HOME"):
            for where in ("inside", "outside"):
                d = os.path.join(base, sub, where)
                os.makedirs(d, exist_ok=True)
                w = os.path.join(base, "cwd")
                os.makedirs(w, exist_ok=True)
                os.chdir(d if where == "inside" else w)
                keep = {}
                for q in ("grid_data", "grid_data.aux.xml", "note.txt", "data.tif"):
                    keep[os.path.join(d, q)] = f"{q} of the user"
                    with open(os.path.join(d, q), "w") as f:
                        f.write(keep[os.path.join(d, q)])
                before = {os.path.join(z, q) for z in (d, w, tmp) for q in os.listdir(z)}
                case = {"kind": "paths", "sub": sub, "where": where, "region": "plain", "shape": rect_list(shape)}
                with ctx.guard(case, "paths"):
                    reg, m, cells = mesh("plain", shape, VALUES)
                    ctx.step()
                    path = export(m, "tif", {"data_name": "val", "sampling_resolution": [8, 4], "color_conf": table()},
                                  "out.tif" if where == "inside" else os.path.join(d, "out.tif"))
                    check_tif(ctx, case, reg, cells, path, (8, 4), lambda v: TABLE[v])
                    after = {os.path.join(z, q) for z in (d, w, tmp) for q in os.listdir(z)}
                    lost = before - after
                    for q, text in keep.items():
                        if q not in lost and open(q).read() != text:
                            lost.add(q)
                    if lost:
                        ctx.fail(case, f"the export removed or changed {sorted(map(os.path.basename, lost))}", "paths-lost")
                    new = {os.path.basename(q) for q in after - before} - {"out.tif", "out.tif.aux.xml"}
                    if new:
                        ctx.fail(case, f"the export left {sorted(new)} behind", "paths-left")
                    ctx.state((sub, where))
                    ctx.trace({"folder": sub, "run": where}, outcome=(sub, where))
    finally:
        os.chdir(here)
        tempfile.tempdir = old[0]
        if old[1] is None:
            del os.environ["TMPDIR"]
        else:
            os.environ["TMPDIR"] = old[1]


def cli_one(ctx):
    """the export_mesh command writes the same pictures, under the given or the default name"""
    import sys
    import matplotlib
    matplotlib.use("Agg")
    import matplotlib.pyplot as plt
    from meshiphi import cli
    here, argv = os.getcwd(), sys.argv
    d = os.path.join(env.scratch(), "cli")
    os.makedirs(d, exist_ok=True)
    for rname in ("plain", "am_straddle"):
        shape = shape_space(rname, 1, 2)[-1]
        reg, m, cells = mesh(rname, shape, VALUES)
        with open(os.path.join(d, "in.json"), "w") as f:
            json.dump(m.to_json(), f)
        for fmt in ("TIF", "tif", "PNG", "png"):
            for out in (None, "pic." + fmt):
                case = {"kind": "cli", "region": rname, "shape": rect_list(shape), "fmt": fmt, "out": out, "how": "bool"}
                with ctx.guard(case, "cli"):
                    tif = fmt.upper() == "TIF"
                    with open(os.path.join(d, "fmt.json"), "w") as f:
                        json.dump({"data_name": "val", "sampling_resolution": [8, 4], "color_conf": table()} if tif
                                  else png_params("bool"), f)
                    path = os.path.join(d, out or ("mesh.tif" if tif else "mesh.png"))
                    if os.path.exists(path):
                        os.remove(path)
                    so, nul = os.dup(1), os.open(os.devnull, os.O_WRONLY)
                    try:
                        os.dup2(nul, 1)
                        os.chdir(d)
                        sys.argv = ["export_mesh", "in.json", fmt, "-f", "fmt.json"] + (["-o", out] if out else [])
                        ctx.step()
                        cli.export_mesh_cli()
                    finally:
                        os.dup2(so, 1)
                        os.close(so)
                        os.close(nul)
                        os.chdir(here)
                        sys.argv = argv
                        plt.close("all")
                    if not os.path.exists(path):
                        ctx.fail(case, f"{os.path.basename(path)} was not written", "cli-file")
                        continue
                    if tif:
                        check_tif(ctx, case, reg, cells, path, (8, 4), lambda v: TABLE[v])
                    else:
                        check_png(ctx, case, reg, cells, path, lambda v, f: (1, 0, 0) if f else (1, 1, 1))
                    ctx.trace({"command": fmt, "out": out, "region": rname}, outcome=(fmt, out))


# ------------------------------------------------------------------ PNG
def check_png(ctx, case, reg, cells, path, colour):
    """colour(value, flag) -> rgb 0..1 or None"""
    import matplotlib.image as mi
    a = mi.imread(path)[..., :3]
    ink = (a < 0.985).any(axis=2)
    ys, xs = np.where(ink.any(axis=1))[0], np.where(ink.any(axis=0))[0]
    if not len(ys):
        return ctx.fail(case, "the picture is empty", "png-empty")
    y0, y1, x0, x1 = ys[0], ys[-1], xs[0], xs[-1]
    asp = ((x1 - x0) / (y1 - y0)) / (reg.W / reg.H)
    if not 0.95 < asp < 1.05:
        return ctx.fail(case, f"the map is {x1 - x0} x {y1 - y0} pixels for {reg.W} x {reg.H} degrees", "png-extent")
    for r, v, f in cells:
        want = colour(v, f)
        if want is None:
            continue
        for fx, fy in ((0.5, 0.5), (0.25, 0.25), (0.75, 0.25), (0.25, 0.75)):
            px = x0 + (r.x + fx * r.w) / reg.W * (x1 - x0)
            py = y1 - (r.y + fy * r.h - reg.lat_min) / reg.H * (y1 - y0)
            got = a[round(py), round(px)]
            if np.abs(got - np.array(want[:3])).max() > 0.02:
                return ctx.fail(case, f"cell {r} (value {v}, {f}) is painted {np.round(got * 255)}, its colour is "
                                      f"{np.round(np.array(want[:3]) * 255)}", "png-cell")
        ctx.state((case["region"], case["shape"], case["how"], r))


def png_params(how):
    cm = [{"data_name": "val", "cmap": "viridis"}]
    bo = [{"data_name": "flag", "colour": "red"}]
    return {"both": {"cmaps": cm, "bools": bo}, "cmap": {"cmaps": cm}, "bool": {"bools": bo},
            "empty bools": {"cmaps": cm, "bools": []}, "two": {"cmaps": [dict(cm[0], cmap="plasma")] + cm, "bools": []},
            "nothing": None}[how]


def png_one(ctx, rname, shape, how, vals, vname="numbers"):
    import matplotlib
    matplotlib.use("Agg")
    import matplotlib.pyplot as plt
    case = {"kind": "png", "region": rname, "shape": rect_list(shape), "how": how, "values": vname}
    with ctx.guard(case, "png"):
        try:
            reg, m, cells = mesh(rname, shape, vals)
            ctx.step()
            path = export(m, "png", png_params(how))
        finally:
            plt.close("all")
        used = [v for _, v, _ in cells if v == v]
        lo, hi = min(used), max(used)
        cmap = matplotlib.colormaps["viridis"]

        def colour(v, f):
            if how == "bool":
                return (1, 0, 0) if f else (1, 1, 1)
            if how == "nothing":
                return (1, 1, 1)
            if how == "both" and f:
                return (1, 0, 0)
            if lo == hi or v != v:
                return None
            return cmap((v - lo) / (hi - lo))
        check_png(ctx, case, reg, cells, path, colour)
        if lo == hi and how == "cmap":      # some colour of the map, the same for every cell
            import matplotlib.image as mi
            a = mi.imread(path)[..., :3]
            mid = a[a.shape[0] // 2 + 7, a.shape[1] // 2 + 7]
            if mid.min() > 0.99:
                ctx.fail(case, "cells of constant data are not painted", "png-constant")
        ctx.trace({"region": rname, "png": how, "values": vname, "cells": len(cells)}, outcome=(how, vname))


PNGVALUES = {"numbers": [0.0, 25.0, 50.0, 75.0, 100.0], "negative": [-4.0, -3.0, 12.0], "fraction": [0.25, 0.5],
             "constant": [7.0], "missing": [float("nan"), 1.0, 5.0, 3.0], "large": [1e6, 3e6, 1.5e6]}


def run(task, ctx):
    k = task["kind"]
    if k in ("tif", "png"):
        sp = shape_space(task["region"], task["k"], 2)
        for n in task["picks"]:
            if k == "tif":
                tif_one(ctx, task["region"], sp[n])
            else:
                png_one(ctx, task["region"], sp[n], "both", PNGVALUES["numbers"])
    elif k == "values":
        for c in value_cases():
            values_one(ctx, task["region"], c[0])
    elif k == "pngvalues":
        for v in PNGVALUES:
            for how in ("both", "cmap", "bool", "empty bools", "two", "nothing"):
                png_one(ctx, task["region"], shape_space(task["region"], 1, 2)[-1], how, PNGVALUES[v], v)
    elif k == "warp":
        warp_one(ctx, task["n"])
    elif k == "cli":
        cli_one(ctx)
    else:
        paths_one(ctx)


def replay_case(case, ctx):
    if "task" in case:
        return run(case["task"], ctx)
    k = case["kind"]
    if k == "tif":
        tif_one(ctx, case["region"], to_shape(case["shape"]))
    elif k == "values":
        values_one(ctx, case["region"], case["values"])
    elif k == "warp":
        warp_one(ctx, case["n"])
    elif k == "png":
        png_one(ctx, case["region"], to_shape(case["shape"]), case["how"], PNGVALUES[case["values"]], case["values"])
    elif k == "cli":
        cli_one(ctx)
    else:
        paths_one(ctx)
