"""C22: synthetic sources: shapes, gradients, checkerboards and random fields have exactly the described form, everywhere."""
import copy
import itertools
import math

from mc.meshes import region_cfg, region_of, config, build_json, Obs, base_cells
from mc.sources import inside, aggregate, same

ID = "C22"
LEVEL = "model_checking"
RULE = ("a state is (synthetic source, its parameters, sampling, region) -> values of all cells; a transition is one build of the real "
        "code; the oracle evaluates the described field on the regular lattice over the region; random fields are compared with "
        "the unit field of the same seed, scaled, capped or cut")
ASSUMPTIONS = ["a centre is (latitude, longitude)", "a rectangle's width and height may mean whole or half sides, alike for both",
               "the default centre is checked for odd sampling, where the lattice has a middle point",
               "a checkerboard's multiplier is left open", "the value of a mask exactly at its threshold is left open"]

REG = {"plain": region_cfg(-4, 4, -8, 8, 4, 4), "south": region_cfg(-72, -64, 20, 36, 4, 4), "am": region_cfg(-4, 4, 172, -172, 4, 4),
       "am_off": region_cfg(60, 68, 178, -166, 4, 4), "am180": region_cfg(-4, 4, 180, -164, 4, 4), "am_m180": region_cfg(-4, 4, 164, -180, 4, 4)}
SQ = {"plain": region_cfg(-8, 8, -8, 8, 4, 4), "south": region_cfg(-80, -64, 20, 36, 4, 4), "am": region_cfg(-8, 8, 172, -172, 4, 4),
      "am_off": region_cfg(56, 72, 178, -166, 4, 4)}
NS = [(1, 5), (5, 1), (3, 3), (5, 3), (3, 5), (9, 5), (5, 9), (4, 6), (6, 4), (8, 8), (9, 9), (2, 7)]
RADII = (None, 0.5, 1, 2, 2.5, 5)
CENTRES = (None, "none", (4, 8), (2, 12), (6, 3.5), (4, None), (None, 5), (0, 0), (10, 8))
SIDES = (None, 1, 2, 3, 4.5)
MULT = (None, 1, 2, -3, 0.5, 0)
GSIZE = (None, (1, 1), (2, 2), (2, 4), (4, 2), (8, 1), (1, 8))


def bounds(tier):
    return (f"{len(REG)} regions (4 across or at the antimeridian) x {len(NS)} samplings x circles ({len(RADII)} radii, {len(CENTRES)} centres), rectangles "
            f"({len(SIDES)}^2 sides), gradients (2 directions), checkerboards ({len(GSIZE)} square sizes), scalar and vector, {len(MULT)} multipliers, given "
            "and left out; random fields: seeds 0-11 x ranges, factors, offsets, caps and thresholds, sizes 5 and 9, 4 regions")


def lattice(reg, nx, ny, end=True):
    ys = [reg.H * i / ((ny - 1) if end else ny) if ny > 1 else 0.0 for i in range(ny)]
    xs = [reg.W * j / ((nx - 1) if end else nx) if nx > 1 else 0.0 for j in range(nx)]
    return ys, xs


def observe(ctx, region, loader, params, agg):
    p = dict(copy.deepcopy(params), aggregate_type=agg, value_fill_types="nan")
    doc = build_json(config(region, [{"loader": loader, "params": p}], 0, 1))
    ctx.step()
    o = Obs(region_of(config(region)), doc)
    if o.errors:
        raise AssertionError(o.errors[0])
    return {r: o.data[i] for i, r in o.cells.items()}


def differs(got, fields, ys, xs, names, agg):
    """First difference between the cells and the given field values on the lattice (offsets from the corner)."""
    for r, data in got.items():
        if names is not None and set(data) != set(names):
            return f"cell {tuple(r)} has values {sorted(data)}, expected {sorted(names)}"
        for n, f in zip(names, fields):
            vs = [f[i][j] for i, y in enumerate(ys) for j, x in enumerate(xs)
                  if r.y < y + LAT0[0] <= r.y + r.h and r.x < x <= r.x + r.w]
            want = aggregate(agg, vs)
            if not same(data[n], want) and not (agg == "COUNT" and not vs and data[n] != data[n]):
                return f"cell {tuple(r)} {n}: {data[n]!r}, expected {want!r} ({agg} of {vs})"
    return None


LAT0 = [0.0]


def spell(reg, dx):
    lon = reg.long_min + dx
    return lon if lon <= 180 else lon - 360


def shape_case(ctx, rname, shape, vec, nx, ny, par, mult, agg, named):
    """par: parameters of the shape, lengths and centres relative to the region's corner."""
    case = {"shape": [rname, shape, vec, nx, ny, par, mult, agg, named]}
    key = f"{'vector ' if vec else ''}{shape}"
    with ctx.guard(case, key):
        region = REG[rname]
        reg = region_of(config(region))
        LAT0[0] = reg.lat_min
        params = {"nx": nx, "ny": ny}
        mu, mv = (mult if mult is not None else 1), (mult + 1 if mult is not None else 1)
        if mult is not None:
            if vec:
                params["multiplier_u"], params["multiplier_v"] = mult, mult + 1
            else:
                params["multiplier"] = mult
        ys, xs = lattice(reg, nx, ny, shape != "checkerboard")
        alts = []
        if shape in ("circle", "rectangle"):
            c = par["centre"]
            cy, cx = ys[ny // 2], xs[nx // 2]
            if c == "none":
                params["centre"] = [None, None]
            elif c is not None:
                cy = cy if c[0] is None else c[0]
                cx = cx if c[1] is None else c[1]
                params["centre"] = [None if c[0] is None else reg.lat_min + c[0], None if c[1] is None else spell(reg, c[1])]
        if shape == "circle":
            rad = 1 if par["radius"] is None else par["radius"]
            if par["radius"] is not None:
                params["radius"] = rad
            alts.append([[float(math.hypot(y - cy, x - cx) <= rad) for x in xs] for y in ys])
        elif shape == "rectangle":
            w = 1 if par["width"] is None else par["width"]
            h = 1 if par["height"] is None else par["height"]
            for k in ("width", "height"):
                if par[k] is not None:
                    params[k] = par[k]
            for f in (1, 0.5):
                alts.append([[float(abs(x - cx) <= f * w and abs(y - cy) <= f * h) for x in xs] for y in ys])
        elif shape == "gradient":
            if par["vertical"] is not None:
                params["vertical"] = par["vertical"]
            up = par["vertical"] is None or par["vertical"]
            n = ny if up else nx
            alts.append([[((i if up else j) / (n - 1) if n > 1 else 0.0) for j in range(nx)] for i in range(ny)])
        else:
            g = par["gridsize"] or (1, 1)
            if par["gridsize"]:
                params["gridsize"] = list(g)
            alts.append([[float((math.floor(y / g[1]) + math.floor(x / g[0])) % 2) for x in xs] for y in ys])
        if vec:
            up = shape == "gradient" and (par["vertical"] is None or par["vertical"])
            across = shape == "gradient" and not up
            fields = [[[[0.0 if up else v * mu for v in row] for row in a], [[0.0 if across else v * mv for v in row] for row in a]]
                      for a in alts]
        else:
            fields = [[[[v * mu for v in row] for row in a]] for a in alts]
        names = ["dummy_data_u", "dummy_data_v"] if vec else ["dummy_data"]
        if named:
            names = ["p", "q"][:len(names)]
            params["data_name"] = ",".join(names)
        got = observe(ctx, region, ("vector_" if vec else "") + shape, params, agg)
        diffs = [differs(got, f, ys, xs, names, agg) for f in fields]
        if all(diffs):
            ctx.fail(case, diffs[0], key)
            return
        ctx.state(case)
        ctx.trace({"case": case}, outcome=[key, [round(v, 6) if isinstance(v, float) and v == v else None for r in sorted(got) for v in got[r].values()]])


def plain_vals(got, n):
    return {r: got[r][n] for r in got}


def relative(reg, got):
    return {(r.y - reg.lat_min, r.x): v for r, v in got.items()}


def grf_case(ctx, seed, size, kind, arg, rname):
    """One point per cell (size 5) or more: the field over `rname` against the unit field over the plain region."""
    case = {"grf": [seed, size, kind, arg, rname]}
    key = f"grf:{kind}"
    with ctx.guard(case, key):
        from mc.meshes import region_of as ro
        sq = SQ[rname]
        fine = region_cfg(sq["lat_min"], sq["lat_max"], sq["long_min"], sq["long_max"], 16 / (size - 1), 16 / (size - 1))
        ref = region_cfg(-8, 8, -8, 8, 16 / (size - 1), 16 / (size - 1))
        reg, rreg = ro(config(fine)), ro(config(ref))
        base = {"seed": seed, "size": size}
        if kind != "vector":
            g = relative(rreg, plain_vals(observe(ctx, ref, "scalar_grf", dict(base, binary=False, min=0, max=1, data_name="g"), "MAX"), "g"))
            if any(not (0 <= v <= 1) for v in g.values()) or len(g) != (size - 1) ** 2 or len(set(g.values())) < 3:
                ctx.fail(case, f"unit field out of range or constant: {sorted(g.values())[:3]}", key)
                return
        if kind == "scale":
            lo, hi, mul, off = arg
            p = dict(base, binary=False, data_name="g")
            for k, v in (("min", lo), ("max", hi), ("multiplier", mul), ("offset", off)):
                if v is not None:
                    p[k] = v
            lo, hi, mul, off = (d if v is None else v for v, d in zip(arg, (-10, 10, 1, 0)))
            want = {k: mul * (lo + (hi - lo) * v) + off for k, v in g.items()}
            got = relative(reg, plain_vals(observe(ctx, fine, "scalar_grf", p, "MAX"), "g"))
        elif kind == "caps":
            t0, t1 = arg
            vs = sorted(g.values())
            if not (vs[0] < t0 and vs[-1] > t1):
                return
            want = {k: (min(max(v, t0), t1) - t0) / (t1 - t0) for k, v in g.items()}
            got = relative(reg, plain_vals(observe(ctx, fine, "scalar_grf", dict(base, binary=False, min=0, max=1, threshold=[t0, t1], data_name="g"), "MAX"), "g"))
        elif kind == "mask":
            t = 0.5 if arg is None else arg
            p = dict(base, binary=True, data_name="g")
            if arg is not None:
                p["threshold"] = arg
            want = {k: float(v >= t) for k, v in g.items() if abs(v - t) > 1e-9}
            got = relative(reg, plain_vals(observe(ctx, fine, "binary_grf", p, "MAX"), "g"))
            if set(got) == set(g):
                got = {k: got[k] for k in want}
        elif kind == "coarse":
            # several points in a cell
            got = relative(reg, plain_vals(observe(ctx, region_cfg(sq["lat_min"], sq["lat_max"], sq["long_min"], sq["long_max"], 8, 8),
                                                   "scalar_grf", dict(base, binary=False, min=0, max=1, data_name="g"), arg), "g"))
            want = {}
            for y, x in got:
                want[y, x] = aggregate(arg, [v for (a, b), v in g.items() if y <= a < y + 8 and x <= b < x + 8])
        else:
            lo, hi, names = arg
            u = relative(rreg, observe(ctx, ref, "vector_grf", dict(base, min=0, max=1), "MEAN"))
            p = dict(base)
            if lo is not None:
                p["min"] = lo
            if hi is not None:
                p["max"] = hi
            lo, hi = 0 if lo is None else lo, 10 if hi is None else hi
            nm = ("uC", "vC")
            if names == "data_name":
                nm = ("p", "q")
                p["data_name"] = "p,q"
            elif names == "vec":
                nm = ("east", "north")
                p["vec_x"], p["vec_y"] = nm
            raw = relative(reg, observe(ctx, fine, "vector_grf", p, "MEAN"))
            got, want = {}, {}
            for k, v in raw.items():
                if set(v) != set(nm):
                    ctx.fail(case, f"values {sorted(v)} instead of {sorted(nm)}", key)
                    return
                for q in (0, 1):
                    got[k + (q,)] = v[nm[q]]
            for k, v in u.items():
                m = math.hypot(v["uC"], v["vC"])
                if m > 1 + 1e-9:
                    ctx.fail(case, f"unit vector field has magnitude {m}", key)
                    return
                for q, c in ((0, "uC"), (1, "vC")):
                    if m > 1e-6:
                        want[k + (q,)] = v[c] / m * (lo + (hi - lo) * m)
                    else:
                        got.pop(k + (q,), None)
        if set(got) != set(want):
            ctx.fail(case, f"{len(got)} cells instead of {len(want)}", key)
            return
        for k in sorted(want):
            if not same(got[k], want[k], 1e-6):
                ctx.fail(case, f"at {k}: {got[k]!r}, expected {want[k]!r}", key)
                return
        ctx.state(case)
        ctx.trace({"case": case}, outcome=[key, round(sum(v for v in want.values()), 3)])


def default_case(ctx, name):
    """Only the name of the shape is given: 101 x 101 points."""
    case = {"default": name}
    with ctx.guard(case, f"default:{name}"):
        vec = name.startswith("vector_")
        shape = name.replace("vector_", "")
        region = REG["plain"]
        reg = region_of(config(region))
        ys, xs = lattice(reg, 101, 101, shape != "checkerboard")
        p = {"data_name": "p,q" if vec else "p"}
        cnt = observe(ctx, region, name, p, "COUNT")
        LAT0[0] = reg.lat_min
        for r, d in cnt.items():
            want = sum(1 for y in ys for x in xs if r.y < y + reg.lat_min <= r.y + r.h and r.x < x <= r.x + r.w)
            if d["p"] != want:
                ctx.fail(case, f"cell {tuple(r)} holds {d['p']} points, expected {want}", f"default:{name}")
                return
        ctx.state(case)
        ctx.trace({"case": case})


def shapes(tier):
    out = []
    n = 0
    quick = tier == "quick"
    for rname in REG:
        for nx, ny in NS:
            odd = nx % 2 and ny % 2
            pars = []
            for rad, c in itertools.product(RADII, CENTRES):
                pars.append(("circle", {"radius": rad, "centre": c}))
            for w, h in itertools.product(SIDES, SIDES):
                pars.append(("rectangle", {"width": w, "height": h, "centre": CENTRES[(len(pars) // 3) % len(CENTRES)]}))
            for v in (None, True, False):
                pars.append(("gradient", {"vertical": v}))
            for g in GSIZE:
                pars.append(("checkerboard", {"gridsize": g}))
            for shape, par in pars:
                c = par.get("centre", (0, 0))
                if not odd and (c is None or c == "none" or None in c):
                    continue
                for vec in (False, True):
                    n += 1
                    if vec and shape == "checkerboard":
                        continue
                    if quick and shape in ("circle", "rectangle") and (n // 2 + vec * 3 + n // 97) % 9:
                        continue
                    mult = None if shape == "checkerboard" else MULT[n // 2 % 6]
                    if mult is not None and mult < 1 and vec:
                        mult = 2
                    agg = ("MEAN", "COUNT", "MEAN")[n // 5 % 3] if vec else ("MEAN", "MAX", "MIN", "COUNT")[n // 3 % 4]
                    out.append((rname, shape, vec, nx, ny, par, mult, agg, bool(n // 7 % 2)))
    return out


def fields(tier):
    quick = tier == "quick"
    out = []
    seeds = range(0, 12 if quick else 40)
    for seed in seeds:
        for size in (5, 9):
            for k, rname in enumerate(SQ):
                args = [("scale", list(a)) for a in ((None, None, None, None), (0, 1, 3, None), (-5, 2, None, 7), (None, 4, -2, 0.5),
                                                     (1, None, 0, 1), (2, 3, 1, -10), (0, 0, 1, 0))]
                args += [("caps", [a, b]) for a, b in ((0.2, 0.8), (0.1, 0.5), (0.5, 0.9), (0.3, 0.7))]
                args += [("mask", a) for a in (None, 0.25, 0.75, 0.9, -1, 2)]
                if size == 9:
                    args += [("coarse", a) for a in ("MIN", "MAX", "MEAN", "COUNT")]
                args += [("vector", [a, b, c]) for a, b, c in ((None, None, None), (1, 3, "data_name"), (0, 5, "vec"), (2, None, None), (None, 4, "vec"))]
                for i, (kind, a) in enumerate(args):
                    if quick and (i + seed + k + size) % 4:
                        continue
                    out.append((seed, size, kind, a, rname))
    return out


DEFAULTS = ["circle", "rectangle", "gradient", "checkerboard", "vector_circle", "vector_rectangle", "vector_gradient"]
_cache = {}


def listing(kind, tier):
    if (kind, tier) not in _cache:
        _cache[kind, tier] = shapes(tier) if kind == "shape" else fields(tier) if kind == "grf" else DEFAULTS
    return _cache[kind, tier]


def tasks(tier):
    t = []
    for k, size in (("default", 1), ("shape", 60), ("grf", 40)):
        n = len(listing(k, tier))
        t += [{"kind": k, "lo": lo, "hi": min(n, lo + size)} for lo in range(0, n, size)]
    return t


def run(task, ctx):
    for c in listing(task["kind"], ctx.tier)[task["lo"]:task["hi"]]:
        if task["kind"] == "default":
            default_case(ctx, c)
        elif task["kind"] == "shape":
            shape_case(ctx, *c)
        else:
            grf_case(ctx, *c)


def replay_case(case, ctx):
    if "default" in case:
        return default_case(ctx, case["default"])
    if "shape" in case:
        return shape_case(ctx, *case["shape"])
    return grf_case(ctx, *case["grf"])
