"""C05: every datapoint inside the region belongs to exactly one cell."""
from mc.builds import all_regions, shapes_up_to, rect_list, to_shape, depth_of
from mc.geom import frac
from mc.meshes import config, region_of, base_cells, driver_source, build_json, Obs, leaves_of, T0, T1
from mc.sources import table, grid, vtable, vgrid, inside, lattice

ID = "C05"
LEVEL = "model_checking"
RULE = ("a state is (mesh, lattice position) -> owning cells, decoded from the built mesh (each position carries a "
        "distinct power of two; sum = MEAN x COUNT identifies exactly which positions a cell aggregated); a "
        "transition is one build of the real code")
ASSUMPTIONS = ["positions are dyadic or decimal; on edges of decimal regions exactly one of the touching cells counts the point; the antimeridian is spelled +180 in the data", "lower edges are exclusive and "
               "upper edges inclusive, as documented for trimming; the region's own west/south edge is outside",
               "the period is given in days"]
BATCH = 40
QUICK = ["plain", "south", "north", "one", "row", "pole", "npole", "am_edge", "am_straddle", "am_180", "am_m180", "am_float",
         "east_end", "west_end", "globe3"]
DEEP = ["plain", "one", "am_edge", "am_straddle"]
GRIDDED = ["plain", "one", "am_edge", "am_straddle", "west_end", "east_end", "am_180", "globe3"]
VECTOR = ["plain", "one", "south", "am_edge", "am_straddle", "am_180", "west_end"]
DEC = ["dec_origin", "dec_am", "dec_south", "dec_straddle", "dec_start"]
NEAR = ["plain", "one", "am_edge", "am_straddle", "dec_am"]
DATES = ["2019-01-15", "2019-12-31", "2020-01-01", "2020-01-02", "2020-01-17", "2020-01-30", "2020-01-31",
         "2020-02-01", "2021-01-15"]
# observations with a time of day belong to their day
STAMPS = sorted(DATES + ["2020-01-01 06:00", "2020-01-02 00:30:00", "2020-01-30 12:00", "2020-01-31 23:59:59", "2020-02-01 00:00:01"])


def bounds(tier):
    k = 1 if tier == "quick" else 2
    return (f"{len(QUICK)} regions x all split sets with <= {k} splits (2 on {DEEP}) (table data) / <= {k} on {len(GRIDDED)} regions "
            f"(gridded data) / {len(VECTOR)} regions (vector tables and grids) x every position of the half-cell lattice (cell edges, corners, centres, and one step "
            "outside the region), and just (2^-30 degrees) beside every edge; every date of a 9-date calendar, with and without a time of day, around both ends of the time window")


def shapes(rname, k, depth):
    return shapes_up_to(base_cells(config(all_regions()[rname])), k, depth)


def tasks(tier):
    k = 1 if tier == "quick" else 2
    t = []
    for kind, names in (("table", QUICK), ("grid", GRIDDED), ("vtable", VECTOR), ("vgrid", VECTOR)):
        for r in names:
            kk = 2 if (r in DEEP and kind == "table") else k
            n = len(shapes(r, kk, 2))
            for i in range(0, n, 3):
                t.append({"kind": kind, "region": r, "k": kk, "lo": i, "hi": min(n, i + 3)})
        for r in DEC if kind in ("table", "grid") or k > 1 else DEC[:2]:
            n = len(shapes(r, k, 2))
            for i in range(0, n, 3):
                t.append({"kind": kind, "region": r, "k": k, "lo": i, "hi": min(n, i + 3)})
        for r in NEAR if k == 1 else sorted(set(names) | set(DEC)):
            n = len(shapes(r, 1, 2))
            for i in range(0, n, 3):
                t.append({"kind": kind, "region": r, "k": 1, "lo": i, "hi": min(n, i + 3), "near": True})
        for r in ("plain", "am_edge", "one"):
            t.append({"kind": kind + "-time", "region": r})
    return t


def near(vals, eps):
    """Positions just beside the given ones, on both sides; longitudes in (-180, 180]."""
    return sorted({q if q > -180 else q + 360 for v in vals for q in (v - eps, v + eps)})


def encode(reg, shape, kind, rname, beside):
    cfg0 = config(all_regions()[rname])
    bases = base_cells(cfg0)
    d = max(1, depth_of(shape, bases))
    step_x = bases[0].w / 2 ** (d + 1)
    step_y = bases[0].h / 2 ** (d + 1)
    if beside:
        eps = 4e-9 if reg.decimal else 2.0 ** -30
        lats, longs = lattice(reg, 2 * step_x, 2 * step_y, margin=0)
        lats = [y for y in near(lats, eps) if -90 <= y <= 90]
        longs = sorted(q if q <= 180 else q - 360 for q in near(longs, eps))
    else:
        lats, longs = lattice(reg, step_x, step_y)
    return lats, longs, [(y, x) for y in lats for x in longs]


def batches(pts):
    return [pts[i:i + BATCH] for i in range(0, len(pts), BATCH)]


def edge(reg, r, lat, lon):
    """The position lies on the edge of the cell (decimal regions: up to rounding)."""
    y, x = frac(lat), (frac(lon) - reg.long_min) % 360
    xs = (x, x - 360, x + 360)
    return (y in (r.y, r.y + r.h) and any(r.x <= q <= r.x + r.w for q in xs)) or \
        (r.y <= y <= r.y + r.h and any(q in (r.x, r.x + r.w) for q in xs))


def decode(ctx, case, o, names, groups, expect):
    """expect(rect, member) -> bool, or None where rounding decides which of the cells
    that touch the position owns it; groups[b][k] is the member with weight 2**k."""
    bad = []
    owners = {}
    for i, r in o.cells.items():
        for b, g in enumerate(groups):
            if names == "vector":
                (m, m2), (c, c2) = ([o.data[i][f"{w}{b}{q}"] for q in "uv"] for w in "mc")
                if m2 != -m or c2 != c:
                    bad.append(f"cell {tuple(r)} aggregated other vectors in its two components: {(m, m2)}, {(c, c2)}")
                    continue
            else:
                m, c = o.data[i][f"m{b}"], o.data[i][f"c{b}"]
            s = round(m * c)
            n = int(c)
            for k, pt in enumerate(g):
                got = bool(s >> k & 1)
                want = expect(r, pt)
                if want is None:
                    owners.setdefault(pt, []).extend([tuple(r)] if got else [])
                elif got != want:
                    bad.append(f"position {pt}: {'counted in' if got else 'missing from'} cell {tuple(r)}")
                elif got:
                    ctx.count("memberships")
            if bin(s).count("1") != n or s >> len(g):
                bad.append(f"cell {tuple(r)} aggregated {n} datapoints, identified {bin(s).count('1')}")
    for pt, cells in owners.items():
        y, x = frac(pt[0]), (frac(pt[1]) - o.region.long_min) % 360
        border = y in (o.region.lat_min, o.region.lat_max) or x in (0, o.region.W % 360)
        if len(cells) != 1 and not (border and not cells):
            bad.append(f"position {pt} between cells is counted in {len(cells)} of them: {cells[:3]}")
    if bad:
        ctx.fail(case, "; ".join(bad[:4]), "membership")


def one(ctx, case):
    rname, kind = case["region"], case["kind"]
    shape = to_shape(case["shape"])
    cfg0 = config(all_regions()[rname])
    reg = region_of(cfg0)
    with ctx.guard(case, "build"):
        lats, longs, pts = encode(reg, shape, kind, rname, case.get("near"))
        groups = batches(pts)
        src = [driver_source(reg, shape)]
        for b, g in enumerate(groups):
            if kind[0] == "v":
                rows = [(y, x, (float(2 ** k), -float(2 ** k))) for k, (y, x) in enumerate(g)]
                make = vtable if kind == "vtable" else vgrid
                src += [make(f"m{b}u,m{b}v", rows, "MEAN", value_fill_types=0), make(f"c{b}u,c{b}v", rows, "COUNT", value_fill_types=0)]
            elif kind == "table":
                rows = [(y, x, float(2 ** k)) for k, (y, x) in enumerate(g)]
                src += [table(f"m{b}", rows, "MEAN", value_fill_types=0), table(f"c{b}", rows, "COUNT")]
            else:
                val = {p: float(2 ** k) for k, p in enumerate(g)}
                v = [[val.get((y, x)) for x in longs] for y in lats]
                src += [grid(f"m{b}", lats, longs, v, "MEAN", value_fill_types=0),
                        grid(f"c{b}", lats, longs, v, "COUNT")]
        depth = max(depth_of(shape, base_cells(cfg0)), 0)
        j = build_json(config(all_regions()[rname], src, depth))
        ctx.step()
        o = Obs(reg, j)
        if o.errors or o.leaves() != leaves_of(base_cells(cfg0), shape):
            ctx.fail(case, f"mesh differs from the intended one: {o.errors[:2]}", "mesh")
            return
        decode(ctx, case, o, "vector" if kind[0] == "v" else None, groups,
               lambda r, p: None if reg.decimal and edge(reg, r, *p) else inside(reg, r, *p))
        for p in pts:
            ctx.state((rname, kind, p, tuple(tuple(r) for r in o.cells.values() if inside(reg, r, *p))))
        ctx.trace({"case": case, "positions": len(pts), "cells": len(o.cells)}, outcome=(rname, len(o.cells)))


def one_time(ctx, case):
    """Positions at cell centres x dates x time windows."""
    rname, kind = case["region"], case["kind"]
    region = dict(all_regions()[rname])
    region["start_time"], region["end_time"] = case["window"]
    cfg0 = config(region)
    reg = region_of(cfg0)
    bases = base_cells(cfg0)
    from mc.meshes import abs_long
    with ctx.guard(case, "build"):
        cells = [bases[0], bases[-1]] if len(bases) > 1 else [bases[0]]
        pos = [(r.y + r.h / 4, float(abs_long(reg, r.x + r.w / 4))) for r in cells]
        members = [(p, d) for p in pos for d in STAMPS]
        groups = [members]
        if kind[0] == "v":
            rows = [(p[0], p[1], (float(2 ** k), -float(2 ** k))) for k, (p, d) in enumerate(members)]
            times = [d for _, d in members]
            make = vtable if kind == "vtable-time" else vgrid
            src = [make("m0u,m0v", rows, "MEAN", times=times, value_fill_types=0), make("c0u,c0v", rows, "COUNT", times=times, value_fill_types=0)]
        elif kind == "table-time":
            rows = [(p[0], p[1], float(2 ** k)) for k, (p, d) in enumerate(members)]
            times = [d for _, d in members]
            src = [table("m0", rows, "MEAN", times=times, value_fill_types=0), table("c0", rows, "COUNT", times=times)]
        else:
            lats = sorted({p[0] for p in pos} | {reg.lat_min, reg.lat_max})
            longs = sorted({p[1] for p in pos} | {float(abs_long(reg, 0)), float(abs_long(reg, reg.W))})
            w = {m: float(2 ** k) for k, m in enumerate(members)}
            v = [[[w.get(((y, x), d)) for x in longs] for y in lats] for d in STAMPS]
            src = [grid("m0", lats, longs, v, "MEAN", times=STAMPS, value_fill_types=0),
                   grid("c0", lats, longs, v, "COUNT", times=STAMPS)]
        j = build_json(config(region, src, 0))
        ctx.step()
        o = Obs(reg, j)
        decode(ctx, case, o, "vector" if kind[0] == "v" else None, groups,
               lambda r, m: inside(reg, r, *m[0]) and case["window"][0] <= m[1][:10] <= case["window"][1])
        ctx.state((rname, kind, case["window"]))
        ctx.trace({"case": case}, outcome=("t", sum(1 for d in DATES if case["window"][0] <= d <= case["window"][1])))


def cases(task):
    if task["kind"].endswith("-time"):
        for i, a in enumerate(DATES):
            for b in DATES[i:]:
                yield {"kind": task["kind"], "region": task["region"], "window": [a, b]}
        return
    for s in shapes(task["region"], task["k"], 2)[task["lo"]:task["hi"]]:
        yield {"kind": task["kind"], "region": task["region"], "shape": rect_list(s), "near": task.get("near", False)}


def replay_case(case, ctx):
    if "task" in case:
        return run(case["task"], ctx)
    (one_time if case["kind"].endswith("-time") else one)(ctx, case)


def run(task, ctx):
    for c in cases(task):
        replay_case(c, ctx)
