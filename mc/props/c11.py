"""C11: point lookup finds the cell that contains the point."""
from fractions import Fraction

from mc.builds import DECIMAL, REGIONS, all_regions, rect_list, shape_space, shape_cfg, to_shape, depth_of
from mc.meshes import config, region_of, base_cells, children, build_env, load, Obs, abs_long

ID = "C11"
LEVEL = "model_checking"
RULE = ("a state is (mesh, position) -> answer of the lookup; a transition is one lookup by the real code, on the "
        "mesh as built, as loaded from its document, and after a further split; the oracle is the rectangle list")
ASSUMPTIONS = ["positions on cell edges (and on the antimeridian inside a cell) may be answered with any touching cell "
               "or refused", "dyadic or decimal coordinates"]


def bounds(tier):
    k = 1 if tier == "quick" else 2
    return (f"{len(REGIONS)} regions x every mesh with <= {k} splits, built / loaded / split once more x every position "
            "of the 1/4-cell lattice offset into the interior plus all edge and corner positions and a margin outside")


def tasks(tier):
    k = 1 if tier == "quick" else 2
    t = []
    for r in list(REGIONS) + [d for d in DECIMAL if tier != "quick" or d != "dec_globe"]:
        n = len(shape_space(r, k, 2))
        for lo in range(0, n, 3):
            t.append({"region": r, "k": k, "lo": lo, "hi": min(n, lo + 3)})
    return t


def positions(reg, bases, fine):
    """(lat, x): interior positions of every quarter cell, edges, corners, and outside."""
    b = bases[0]
    xs, ys = set(), set()
    n, m = round(reg.W / b.w), round(reg.H / b.h)
    if reg.decimal:         # off the edges, which are known up to rounding only
        sub = [Fraction(k, 16) for k in ((1, 5, 11, 15) if fine else (1, 7))]
        return [(float(reg.lat_min + (j + q) * b.h), (i + s) * b.w) for j in range(-1, m + 1)
                for i in range(-1, n + 1) for q in sub for s in sub
                if 0 <= i < n or not reg.globe]
    sub = (1 / 8, 3 / 8, 1 / 2, 5 / 8, 7 / 8) if fine else (1 / 8, 1 / 2, 5 / 8)
    for i in range(n):
        xs |= {i * b.w} | {(i + s) * b.w for s in sub}
    for j in range(m):
        ys |= {reg.lat_min + j * b.h} | {reg.lat_min + (j + s) * b.h for s in sub}
    xs.add(reg.W)
    ys.add(reg.lat_max)
    if not reg.globe and reg.W + 2 <= 360:
        xs |= {-1.0, reg.W + 1.0}
    ys |= {reg.lat_min - 1.0, reg.lat_max + 1.0}
    return [(y, x) for y in sorted(ys) for x in sorted(xs)]


def ask(ctx, case, reg, m, cells, pts, what):
    """cells: {id: Rect}"""
    for y, x in pts:
        for lon in spellings(reg, x):
            ctx.step()
            inside = [i for i, r in cells.items() if r.y < y < r.y + r.h and r.x < x < r.x + r.w]
            xs = [x] + ([x + 360, x - 360] if reg.W == 360 else [])
            touch = [i for i, r in cells.items() if r.y <= y <= r.y + r.h and any(r.x <= q <= r.x + r.w for q in xs)]
            here = bool(m.query_inside_mesh((y, lon)))
            try:
                got = int(m.query_index((y, lon)))
            except Exception as e:
                if "Point" not in str(e):
                    raise
                got = None
            msg = None
            if inside and abs(lon) != 180:
                if not here or got != inside[0]:
                    msg = f"the point lies in cell {inside[0]}, lookup says {got} (inside: {here})"
            elif not touch:
                if here or got is not None:
                    msg = f"the point lies outside the mesh, lookup says {got} (inside: {here})"
            elif got is not None and got not in touch:
                msg = f"the point touches cells {touch}, lookup says {got}"
            if msg:
                ctx.fail(dict(case, what=what, point=[y, lon]), f"({y}, {lon}) {what}: {msg}", "lookup")
            ctx.state((case["region"], case["shape"], what == "split", y, lon))
            ctx.trace({"region": case["region"], "point": [y, lon], "cell": got}, outcome=(bool(inside), got is None))


def spellings(reg, x):
    v = abs_long(reg, x)
    return (180.0, -180.0) if v == 180 else (v,)


def one(ctx, rname, shape):
    case = {"region": rname, "shape": rect_list(shape)}
    region = all_regions()[rname]
    fine = ctx.tier != "quick"
    with ctx.guard(case, "lookup"):
        cfg = shape_cfg(region, shape)
        reg = region_of(cfg)
        bases = base_cells(cfg)
        m = build_env(cfg)
        j = m.to_json()
        o = Obs(reg, j)
        pts = positions(reg, bases, fine)
        ask(ctx, case, reg, m, o.cells, pts, "built")
        ml = load(j)
        # get_cellbox and contains_point agree with the document
        for i, r in o.cells.items():
            for key in (i, str(i)):
                cb = ml.get_cellbox(key)
                if cb is None or int(cb.get_id()) != i:
                    ctx.fail(case, f"get_cellbox({key!r}) returns {cb and cb.get_id()}", "get_cellbox")
                    return
            cx, cy = abs_long(reg, r.x + r.w / 4), r.y + r.h / 4
            if not cb.contains_point(cy, cx):
                ctx.fail(case, f"cell {i} denies containing ({cy}, {cx})", "contains")
        if ml.get_cellbox("999999") is not None:
            ctx.fail(case, "get_cellbox of an unknown id returns a cell", "get_cellbox")
        ask(ctx, case, reg, ml, o.cells, pts[::1 if fine else 2], "loaded")
        first = sorted(o.cells)[len(o.cells) // 2]
        ml.split_and_replace(str(first))
        o2 = Obs(reg, ml.to_json())
        ask(ctx, case, reg, ml, o2.cells, pts[1::1 if fine else 2], "split")


def run(task, ctx):
    for s in shape_space(task["region"], task["k"], 2)[task["lo"]:task["hi"]]:
        one(ctx, task["region"], s)


def replay_case(case, ctx):
    if "task" in case:
        return run(case["task"], ctx)
    one(ctx, case["region"], to_shape(case["shape"]))
