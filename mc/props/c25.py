"""C25: measures and helpers asked directly give what their descriptions define, for every argument."""
import itertools
import math
from datetime import datetime, timedelta
from decimal import Decimal, ROUND_HALF_EVEN
from fractions import Fraction

from mc.meshes import region_cfg, region_of, config, base_cells, abs_long
from mc.sources import aggregate
from mc.props.c15 import source, curl_patterns, gradient, LATS, CGRID, VECS, MISS, DSITES, place, vectors
from mc.props.c04 import N

ID = "C25"
LEVEL = "model_checking"
RULE = ("a state is (function, argument); a transition is one call of the real code; flow measures are asked of a loader for every "
        "cell of a lattice that carries consecutive patterns of the enumeration; the oracle works on the raw vectors, with exact "
        "decimals, or by counting days one at a time")
ASSUMPTIONS = ["curl: complete lattices with unit spacing; the order of the returned curls and deviations is left open",
               "rounding a number that lies half way between two results may give either",
               "durations are not negative; half minutes and half hundredths of an hour may be rounded either way",
               "180 and -180 are the same longitude; a value already from -180 to 180 stays as it is"]
YEARS = (2019, 2020, 2023, 2024, 2100)
MANT = (1, 9, 10, 11, 15, 25, 99, 100, 104, 105, 106, 499, 500, 501, 999, 1234, 4995, 9995, 9999, 12345, 99995, 99999, 123456, 999999,
        1000001, 31415926, 99999999, 123456789)
COEF = (-2.0, 0.0, 1.0, 3.5)
LONGS = tuple(Fraction(k, 4) for k in range(-4 * 720, 4 * 720 + 1, 15)) + tuple(Fraction(k * 90) for k in range(-8, 9))


def bounds(tier):
    return ("curl of all fields of 4 vectors on 2x2 and of 2 vectors on 3x2, 2x3 and 3x3 lattices per cell, and deviations of all patterns of 4 sites over "
            "(no point, missing, 3 vectors), tables and grids of one and two dates, 3 regions (also across the antimeridian), every aggregate; values "
            "of all patterns of 4 sites (scalar and vector, tables and grids) asked with every aggregate in 3 spellings, missing values skipped and kept; "
            f"meshes of {len(SPELT)} kinds of sources with every aggregate in 3 spellings; curl and divergence of all linear fields with coefficients {COEF}, 2 to 5 points a side; rounding of "
            f"{len(MANT)} mantissas, both signs, exponents -12 to 12, 1 to 8 figures, as number, integer, list and array; months, parts of months and "
            f"ranges of days of {YEARS}; durations at, just before and just after every minute (0-3 days) and hundredth of an hour; all pairs of {len(set(LONGS))} longitudes")


def tasks(tier):
    quick = tier == "quick"
    t = []
    for src in ("table", "grid", "table2", "grid2"):
        for lat in ("2x2", "3x2", "2x3", "3x3"):
            tot = len(fields(lat))
            for g in CGRID:
                if quick and lat in ("3x2", "2x3") and g == "east":
                    continue
                for lo in range(0, tot, 160):
                    t.append({"kind": "curl", "src": src, "lat": lat, "grid": g, "lo": lo, "hi": min(tot, lo + 160)})
        tot = len(patterns(src))
        for g in CGRID:
            if quick and g == "east":
                continue
            for lo in range(0, tot, 160):
                t.append({"kind": "dmag", "src": src, "grid": g, "lo": lo, "hi": min(tot, lo + 160)})
    for src in ("table", "grid", "vtable", "vgrid"):
        tot = len(askings(src))
        for g in CGRID:
            if quick and g == "east":
                continue
            for lo in range(0, tot, 160):
                t.append({"kind": "ask", "src": src, "grid": g, "lo": lo, "hi": min(tot, lo + 160)})
    t += [{"kind": "spelling", "src": src} for src in SPELT]
    t += [{"kind": "linear", "nx": nx, "ny": ny} for nx in range(2, 6) for ny in range(2, 6)]
    t += [{"kind": "round", "figs": k} for k in range(1, 9)]
    t += [{"kind": "month", "year": y} for y in YEARS]
    t += [{"kind": "days", "year": y} for y in YEARS]
    t += [{"kind": "duration", "day": d} for d in range(0, 4)]
    t += [{"kind": "long", "part": p} for p in range(4)]
    t.append({"kind": "wrapped"})
    return t


# ------------------------------------------------------------------ flow measures
def fields(lat):
    if lat == "3x3":
        return list(itertools.product(((0.0, 0.0), (2.0, -1.0)), repeat=9))
    return curl_patterns(lat)


def patterns(src):
    return list(itertools.product(((N, MISS) if src[:5] == "table" else (MISS,)) + VECS, repeat=4))


def boundary(reg, r):
    from meshiphi.mesh_generation.boundary import Boundary
    return Boundary([float(r.y), float(r.y + r.h)], [float(abs_long(reg, r.x)), float(abs_long(reg, r.x + r.w))],
                    ["2020-01-01", "2020-01-10"])


def loader(src, rows, reg, whole):
    from meshiphi.dataloaders.factory import DataLoaderFactory
    s = source("mean" if src == "grid" else src, "u,v", rows, reg, "MIN")
    return DataLoaderFactory().get_dataloader(s["loader"], whole, s["params"], min_dp=0)


def curls(pts, nx, ny, p):
    out = []
    for i in range(nx):
        for j in range(ny):
            out.append(gradient(lambda k: p[k * ny + j][1], nx)[i] - gradient(lambda k: p[i * ny + k][0], ny)[j])
    return out


def near(a, b):
    if b is None:
        return a != a
    return abs(a - b) <= 1e-9 * max(1.0, abs(b))


def numbers(x):
    import numpy as np
    return sorted((float(v) for v in np.ravel(x)), key=lambda v: (v != v, v))


def flow(ctx, task, pats, idx):
    import numpy as np
    curl = task["kind"] == "curl"
    cfg = config(CGRID[task["grid"]])
    reg = region_of(cfg)
    cells = base_cells(cfg)
    k = (idx[0] // 40) * 7 % len(cells)
    cells = (cells[k:] + cells[:k])[:len(pats)]
    if curl:
        nx, ny = LATS.get(task["lat"], (3, 3))
        data = [[(c.x + c.w / 2 - 0.5 + i, c.y + c.h / 2 - 0.5 + j, p[i * ny + j]) for i in range(nx) for j in range(ny)]
                for c, p in zip(cells, pats)]
    else:
        data = [place(c, p, DSITES) for c, p in zip(cells, pats)]
    rows = [(y, abs_long(reg, x), v) for d in data for x, y, v in d]
    bcase = {"task": dict(task, lo=idx[0], hi=idx[-1] + 1)}
    with ctx.guard(bcase, task["kind"]):
        from meshiphi.mesh_generation.boundary import Boundary
        a = CGRID[task["grid"]]
        whole = Boundary([a["lat_min"], a["lat_max"]], [a["long_min"], a["long_max"]], ["2020-01-01", "2020-01-10"])
        ld = loader(task["src"], rows, reg, whole)
        for n, (cell, p) in enumerate(zip(cells, pats)):
            b = boundary(reg, cell)
            errs = []
            f = ld.calc_curl if curl else ld.calc_dmag
            if curl:
                want = curls(data[n], nx, ny, p)
                if task["src"][-1] == "2":
                    want += [2 * c for c in want]
            else:
                vs = vectors(cell, data[n], task["src"])
                m = [sum(v[i] for v in vs) / len(vs) for i in (0, 1)] if vs else None
                want = [math.hypot(v[0] - m[0], v[1] - m[1]) for v in vs]
            got = [v for v in numbers(f(b, collapse=False)) if v == v]
            if len(got) != len(want) or not all(near(x, y) for x, y in zip(got, sorted(want))):
                errs.append(f"{task['kind']} of {p}: {got}, expected {sorted(want)}")
            top = max((abs(w) for w in want), default=None)
            mean = math.fsum(want) / len(want) if want else None
            for kw, kind in (({}, "MAX" if curl else "MEAN"), ({"agg_type": "MAX"}, "MAX"), ({"agg_type": "MEAN"}, "MEAN"),
                             ({"agg_type": "MAX", "collapse": True}, "MAX")):
                g = numbers(f(b, **kw))
                w = top if kind == "MAX" else mean
                g = [abs(x) if kind == "MAX" else x for x in g]
                if len(g) != 1 or not near(g[0], w):
                    errs.append(f"{kind} {task['kind']} of {p}: {g}, expected {w}")
                ctx.step()
            if kind == "MAX" and want and curl:
                g = numbers(f(b, agg_type="MAX"))[0]
                if not any(near(g, w) for w in want):
                    errs.append(f"greatest curl of {p}: {g}, none of {sorted(want)}")
            if not curl:
                # the value is asked with an aggregate other than the configured one
                for agg in ("MIN", "MAX", "MEAN", "COUNT", None):
                    e = ld.get_value(b, agg_type=agg) if agg else ld.get_value(b)
                    e = tuple(float(x) for x in e.values())
                    ag = agg or "MIN"
                    if ag in ("MIN", "MAX"):
                        ls = [math.hypot(*v) for v in vs]
                        w = (min if ag == "MIN" else max)(ls) if ls else None
                        ok = near(math.hypot(*e), w) and (w is None or any(near(e[0], v[0]) and near(e[1], v[1]) for v in vs))
                    else:
                        ok = True
                        for i in (0, 1):
                            w = aggregate(ag, [v[i] for v in vs])
                            ok &= near(e[i], w) or (ag == "COUNT" and not vs and (e[i] == 0 or e[i] != e[i]))
                    if len(e) != 2 or not ok:
                        errs.append(f"value of {p} asked with {ag}: {e}, of vectors {vs}")
                    ctx.step()
            if n == 0:
                for bad in ("SUM", "median"):
                    try:
                        if want:
                            f(b, agg_type=bad)
                            errs.append(f"aggregate {bad} accepted for {task['kind']}")
                    except ValueError:
                        pass
            if errs:
                ctx.fail({"task": dict(task, lo=idx[n], hi=idx[n] + 1)}, "; ".join(errs[:2]), task["kind"])
            ctx.state((task["kind"], task["src"], task.get("lat"), task["grid"], idx[n]))
            ctx.trace({"pattern": [str(x) for x in p], "got": got[:4]}, outcome=(task["kind"], len(got), round(top or 0, 6)))


SQUARE = [(3, 3), (13, 3), (3, 13), (13, 13)]
SCAL = (-2.0, 0.0, 7.5)
SPELT = ("table", "grid", "vtable", "vgrid", "lut", "down_table", "down_grid", "down_vgrid")


def askings(src):
    vals = SCAL if src[0] != "v" else VECS
    return list(itertools.product(((N, MISS) if "table" in src else (MISS,)) + vals, repeat=4))


def plain_source(src, rows, reg, agg, **kw):
    from mc.sources import table, grid
    if src[0] == "v":
        return source("mean" if src == "vgrid" else "table", "u,v", rows, reg, agg, **kw)
    rows = [(y, x, None if v == MISS else v) for y, x, v in rows]
    if src == "table":
        return table("a", rows, agg, **kw)
    lats, lons = sorted({r[0] for r in rows}), sorted({r[1] for r in rows})
    at = {(r[0], r[1]): r[2] for r in rows}
    return grid("a", lats, lons, [[at.get((y, x)) for x in lons] for y in lats], agg, **kw)


def spellings(a):
    return a, a.lower(), a.title()


def std(vs, one):
    n = len(vs) - (1 if one else 0)
    m = math.fsum(vs) / len(vs)
    return math.sqrt(math.fsum((v - m) ** 2 for v in vs) / n) if n > 0 else None


def ask(ctx, task, pats, idx):
    """The value of a cell, asked with every aggregate in every spelling, missing values skipped or not."""
    from meshiphi.dataloaders.factory import DataLoaderFactory
    from meshiphi.mesh_generation.boundary import Boundary
    cfg = config(CGRID[task["grid"]])
    reg = region_of(cfg)
    cells = base_cells(cfg)
    k = (idx[0] // 40) * 7 % len(cells)
    cells = (cells[k:] + cells[:k])[:len(pats)]
    data = [place(c, p, SQUARE) for c, p in zip(cells, pats)]
    rows = [(y, abs_long(reg, x), v) for d in data for x, y, v in d]
    vec = task["src"][0] == "v"
    with ctx.guard({"task": dict(task, lo=idx[0], hi=idx[-1] + 1)}, "ask"):
        a = CGRID[task["grid"]]
        whole = Boundary([a["lat_min"], a["lat_max"]], [a["long_min"], a["long_max"]], ["2020-01-01", "2020-01-10"])
        s = plain_source(task["src"], rows or [(a["lat_min"] + 1.0, a["long_min"] + 1.0, MISS)], reg, ("MEAN", "max", "Min")[idx[0] // 40 % 3])
        ld = DataLoaderFactory().get_dataloader(s["loader"], whole, s["params"], min_dp=0)
        for n, (cell, p) in enumerate(zip(cells, pats)):
            b = boundary(reg, cell)
            errs = []
            vs = [v for _, _, v in data[n] if v != MISS]
            gaps = len(data[n]) - len(vs)
            for agg in ("MIN", "MAX", "MEAN", "STD", "COUNT") + (() if vec else ("MEDIAN",)):
                for skip in (True, False):
                    for sp in spellings(agg):
                        got = tuple(float(x) for x in ld.get_value(b, agg_type=sp, **({} if skip and sp == agg else {"skipna": skip})).values())
                        ctx.step()
                        if agg == "COUNT":
                            w = len(data[n]) if not skip else len(vs)
                            ok = all(g == w or (not vs and (g == 0 or g != g)) for g in got)
                        elif not vs or (not skip and gaps):
                            w, ok = None, all(g != g for g in got)
                        elif vec and agg in ("MIN", "MAX"):
                            w = (min if agg == "MIN" else max)(math.hypot(*v) for v in vs)
                            ok = near(math.hypot(*got), w) and any(near(got[0], v[0]) and near(got[1], v[1]) for v in vs)
                        else:
                            w, ok = [], len(got) == (2 if vec else 1)
                            for i, g in enumerate(got):
                                c = sorted(v[i] if vec else v for v in vs)
                                one = {"MIN": c[0], "MAX": c[-1], "MEAN": math.fsum(c) / len(c), "STD": std(c, True),
                                       "MEDIAN": (c[(len(c) - 1) // 2] + c[len(c) // 2]) / 2}[agg]
                                w.append(one)
                                ok &= near(g, one) or (agg == "STD" and near(g, std(c, False)))
                        if not ok:
                            errs.append(f"{sp} of {p}, missing {'skipped' if skip else 'kept'}: {got}, expected {w}")
            for bad in ("SUM", "") + (("MEDIAN",) if vec else ()):
                try:
                    if vs:
                        errs.append(f"aggregate {bad!r} gave {ld.get_value(b, agg_type=bad)}")
                except ValueError:
                    pass
            if errs:
                ctx.fail({"task": dict(task, lo=idx[n], hi=idx[n] + 1)}, "; ".join(errs[:2]), "ask")
            ctx.state(("ask", task["src"], task["grid"], idx[n]))
            ctx.trace({"pattern": [str(x) for x in p]}, outcome=("ask", len(vs), gaps))


def spelling(ctx, task):
    """A mesh is the same whichever way its aggregates are spelt."""
    from mc.meshes import build_json, csv
    src = task["src"]
    R = CGRID["plain"]
    reg = region_of(config(R))
    vec = "v" in src
    rows = []
    for i in range(16):
        for j in range(40):
            k = (7 * i + 5 * j) % 11
            v = MISS if k == 0 else ((float(k - 5), float((3 * i + j) % 7)) if vec else float(k - 5))
            rows.append((-15.0 + 2 * i, -39.0 + 2 * j, v))
    for agg in ("MIN", "MAX", "MEAN", "STD", "COUNT") + (() if vec else ("MEDIAN",)):
        with ctx.guard({"task": task}, "spelling"):
            docs = []
            for sp in spellings(agg):
                if src == "lut":
                    f = csv([('"POLYGON ((-12 -12, 20 -12, 20 4, -12 4, -12 -12))"', 1), ('"POLYGON ((-4 -4, 30 -4, 30 12, -4 12, -4 -4))"', 6)], "geometry,a")
                    s = {"loader": "lut_csv", "params": {"files": [f], "data_name": "a", "aggregate_type": sp}}
                elif src.startswith("down_"):
                    s = plain_source(src[5:], rows, reg, sp, downsample_factors=[2, 2])
                else:
                    s = plain_source(src, rows, reg, sp)
                docs.append(build_json(config(R, [s], 1, 1))["cellboxes"])
                ctx.step()
            for sp, d in zip(spellings(agg)[1:], docs[1:]):
                if repr(d) != repr(docs[0]):
                    diff = [(x, y) for x, y in zip(docs[0], d) if repr(x) != repr(y)]
                    ctx.fail({"task": task}, f"{src}: a mesh of {sp!r} differs from that of {agg!r}: {str(diff[:1])[:300]}", "spelling")
        ctx.state(("spelling", src, agg))
        ctx.trace({"src": src, "agg": agg}, outcome=(src, agg))


def linear(ctx, task):
    import numpy as np
    from meshiphi.utils import curl, divergence
    nx, ny = task["nx"], task["ny"]
    for a, b, c, d in itertools.product(COEF, repeat=4):
        flow_ = np.array([[[a * x + b * y + 1, c * x + d * y - 2] for x in range(nx)] for y in range(ny)])
        with ctx.guard({"task": task}, "linear"):
            for f, w in ((curl, c - b), (divergence, a + d)):
                got = numbers(f(flow_))
                ctx.step()
                if len(got) != nx * ny or any(abs(g - w) > 1e-9 for g in got):
                    ctx.fail({"task": task}, f"{f.__name__} of (({a} x + {b} y), ({c} x + {d} y)) on {nx}x{ny}: {got}, expected {w}", f.__name__)
        ctx.state((task["kind"], nx, ny, a, b, c, d))
        ctx.trace({"a": a, "b": b, "c": c, "d": d, "nx": nx, "ny": ny}, outcome=(c - b, a + d))


# ------------------------------------------------------------------ rounding
def rounded(x, figs):
    """The possible roundings of a number: one, or two if it lies half way."""
    d = Decimal(x)
    if d == 0:
        return {0.0}
    q = Decimal(1).scaleb(d.adjusted() - figs + 1)
    lo = (d / q).to_integral_value(rounding="ROUND_FLOOR") * q
    out = {float(lo)}
    rest = (d - lo) / q
    if rest == 0:
        return out
    if abs(rest - Decimal("0.5")) < Decimal("1e-6"):
        return out | {float(lo + q)}
    return {float((d / q).to_integral_value(rounding=ROUND_HALF_EVEN) * q)}


def rounding(ctx, task):
    import numpy as np
    from meshiphi.utils import round_to_sigfig
    figs = task["figs"]
    xs = [0.0] + [s * float(Decimal(m).scaleb(e)) for m in MANT for e in range(-12, 13) for s in (1, -1)]
    ints = [0] + [s * m * 10 ** e for m in MANT for e in range(0, 5) for s in (1, -1)]

    def ok(g, x):
        if x != x or math.isinf(x):
            return g == x or x != x and g != g
        return any(abs(g - w) <= 1e-13 * abs(w) for w in rounded(x, figs))

    def judge(what, got, vals):
        got = numbers_in_order(got)
        ctx.step()
        for g, x in zip(got, vals):
            if not ok(g, x):
                ctx.fail({"task": task}, f"{what} {x!r} rounded to {figs} figures: {g!r}, expected one of {sorted(rounded(x, figs))}", "round")
                return
        if len(got) != len(vals):
            ctx.fail({"task": task}, f"{what} of {len(vals)} values rounded into {len(got)}", "round")

    with ctx.guard({"task": task}, "round"):
        for x in xs:
            judge("number", round_to_sigfig(x, figs), [x])
            judge("number", round_to_sigfig(x, sigfig=figs), [x])
            if figs == 5:
                judge("number", round_to_sigfig(x), [x])
            ctx.state(("round", figs, x))
        for x in ints:
            judge("integer", round_to_sigfig(x, figs), [x])
            ctx.state(("round", figs, x))
        spec = xs[:60] + [float("nan"), float("inf"), -float("inf")] + xs[60:]
        for vals in (xs, spec, ints, [5.5], [], spec[58:66]):
            judge("list", round_to_sigfig(list(vals), figs), vals)
            if vals:
                judge("array", round_to_sigfig(np.array(vals, dtype=float), figs), vals)
        judge("array of integers", round_to_sigfig(np.array(ints), figs), ints)
        same = xs[:50]
        keep = list(same)
        round_to_sigfig(same, figs)
        arr = np.array(keep)
        round_to_sigfig(arr, figs)
        if same != keep or arr.tolist() != keep:
            ctx.fail({"task": task}, "rounding changed the values that it was given", "round")
        if type(round_to_sigfig(1.5, figs)) is not float or type(round_to_sigfig([1.5], figs)) is not list:
            ctx.fail({"task": task}, "rounding a number or a list returned another type", "round")
    ctx.trace({"figs": figs}, outcome=("round", figs))


def numbers_in_order(x):
    import numpy as np
    return [float(v) for v in np.ravel(x)]


# ------------------------------------------------------------------ calendar
def month_days(y, m):
    n, d = 0, datetime(y, m, 1)
    while d.month == m:
        n, d = n + 1, d + timedelta(1)
    return n


def months(ctx, task):
    from meshiphi.utils import frac_of_month
    y = task["year"]
    for m in range(1, 13):
        with ctx.guard({"task": task}, "month"):
            n = month_days(y, m)
            day = lambda k: datetime(y, m, k)
            for i in [None] + list(range(1, n + 1)):
                for j in [None] + list(range(1, n + 1)):
                    kw = {}
                    if i:
                        kw["start_date"] = day(i)
                    if j:
                        kw["end_date"] = day(j)
                    if (i or 1) > (j or n):
                        continue
                    got = frac_of_month(y, m, **kw)
                    ctx.step()
                    want = ((j or n) - (i or 1) + 1) / n
                    if abs(got - want) > 1e-12:
                        ctx.fail({"task": task}, f"part of {y}-{m} from day {i} to day {j}: {got}, expected {want}", "month")
            for kw in ({"start_date": day(1) - timedelta(1)}, {"end_date": day(n) + timedelta(1)}):
                try:
                    frac_of_month(y, m, **kw)
                    ctx.fail({"task": task}, f"{kw} accepted for {y}-{m}", "month")
                except AssertionError:
                    pass
        ctx.state(("month", y, m))
        ctx.trace({"year": y, "month": m}, outcome=n)


def days(ctx, task):
    from meshiphi.utils import date_range, str_to_datetime
    y = task["year"]
    d = datetime(y, 1, 1)
    while d.year == y:
        with ctx.guard({"task": task}, "days"):
            s = str_to_datetime(f"{d.year:04d}-{d.month:02d}-{d.day:02d}")
            if s != d:
                ctx.fail({"task": task}, f"{d:%Y-%m-%d} read as {s}", "days")
            for n in (0, 1, 2, 3, 28, 29, 30, 31, 32, 59, 60, 365, 366):
                got = list(date_range(d, d + timedelta(n)))
                ctx.step()
                if got != [d + timedelta(k) for k in range(n)]:
                    ctx.fail({"task": task}, f"{n} days from {d:%Y-%m-%d}: {[str(x) for x in got[:3]]} ... ({len(got)})", "days")
        ctx.state(("days", str(d)))
        d += timedelta(1)
    ctx.trace({"year": y}, outcome=y)


def duration(ctx, task):
    from meshiphi.utils import convert_decimal_days
    base = task["day"]

    def parts(text, units):
        w = text.split()
        got = dict(zip(w[1::2], w[0::2]))
        if len(w) % 2 or not set(got) <= set(units):
            raise AssertionError(f"unreadable duration {text!r}")
        return {u: float(got.get(u, 0)) for u in units}

    with ctx.guard({"task": task}, "duration"):
        for m in range(base * 1440, (base + 1) * 1440):
            for e in (-0.49, -0.01, 0.0, 0.01, 0.49):
                x = (m + e) / 1440
                if x < 0:
                    continue
                p = parts(convert_decimal_days(x, True), ("days", "hours", "minutes"))
                ctx.step()
                want = {"days": m // 1440, "hours": m % 1440 // 60, "minutes": m % 60}
                if p != want:
                    ctx.fail({"task": task}, f"{x!r} days: {convert_decimal_days(x, True)!r}, expected {want}", "duration")
                    return
            ctx.state(("minutes", m))
        for h in range(base * 2400, (base + 1) * 2400):
            for e in (-0.4, 0.0, 0.4):
                x = (h + e) / 2400
                if x < 0:
                    continue
                p = parts(convert_decimal_days(x), ("days", "hours"))
                ctx.step()
                if p["days"] != h // 2400 or abs(p["hours"] - h % 2400 / 100) > 1e-9:
                    ctx.fail({"task": task}, f"{x!r} days: {convert_decimal_days(x)!r}, expected {h // 2400} days {h % 2400 / 100} hours", "duration")
                    return
            ctx.state(("hours", h))
    ctx.trace({"day": base}, outcome=base)


# ------------------------------------------------------------------ longitudes
def longs(ctx, task):
    import numpy as np
    from meshiphi.utils import longitude_domain, longitude_distance
    xs = sorted(set(LONGS))
    with ctx.guard({"task": task}, "long"):
        if task["part"] == 0:
            for x in xs:
                f = float(x)
                g = longitude_domain(f)
                ctx.step()
                if not -180 <= g <= 180 or (Fraction(g) - x) % 360 or (-180 <= f <= 180 and g != f):
                    ctx.fail({"task": task}, f"longitude {f} became {g}", "long")
                ctx.state(("long", f))
            fs = [float(x) for x in xs]
            for v in (longitude_domain(list(fs)), longitude_domain(np.array(fs))):
                if [float(a) for a in v] != [float(longitude_domain(a)) for a in fs] or type(v) not in (list, np.ndarray):
                    ctx.fail({"task": task}, "several longitudes are not brought into the domain one by one", "long")
        for x in xs[task["part"]::4]:
            for y in xs:
                d = (y - x) % 360
                want = float(min(d, 360 - d))
                got = float(longitude_distance(float(x), float(y)))
                ctx.step()
                if abs(got - want) > 1e-9:
                    ctx.fail({"task": task}, f"distance of longitudes {float(x)} and {float(y)}: {got}, expected {want}", "long")
                    return
            ctx.state(("distance", float(x)))
    ctx.trace({"part": task["part"]}, outcome=task["part"])


def wrapped(ctx, task):
    """Decorated functions do what they did."""
    from meshiphi.utils import memory_trace, timed_call, boundary_to_coords
    from meshiphi.mesh_generation.boundary import Boundary
    import tracemalloc
    for dec in (memory_trace, timed_call):
        calls = []

        def f(*a, **k):
            "what it does"
            calls.append((a, k))
            if k.get("bad"):
                raise KeyError("bad")
            return [a, k, [0] * 100]
        with ctx.guard({"task": task}, dec.__name__):
            g = dec(f)
            for a in ((), (1,), (1, "x")):
                for k in ({}, {"p": 2}, {"p": 2, "q": None}):
                    del calls[:]
                    r = g(*a, **k)
                    ctx.step()
                    if r != [a, k, [0] * 100] or calls != [(a, k)]:
                        ctx.fail({"task": task}, f"{dec.__name__}: call {a} {k} gave {str(r)[:60]}, {len(calls)} calls", dec.__name__)
                    ctx.state((dec.__name__, str(a), str(k)))
            try:
                g(bad=True)
                ctx.fail({"task": task}, f"{dec.__name__} hides an error", dec.__name__)
            except KeyError:
                pass
            if g.__name__ != "f" or g.__doc__ != "what it does":
                ctx.fail({"task": task}, f"{dec.__name__} hides the name of the function", dec.__name__)
        if tracemalloc.is_tracing():
            tracemalloc.stop()
    for a, b, c, d in itertools.product((-64.0, -1.5), (0.0, 2.5), (-180.0, -4.0, 170.0), (-175.0, 4.0, 180.0)):
        with ctx.guard({"task": task}, "coords"):
            got = boundary_to_coords(Boundary([a, b], [c, d], ["2020-01-01", "2020-01-02"]))
            ctx.step()
            if tuple(map(tuple, got)) != ((a, c), (b, d)):
                ctx.fail({"task": task}, f"corners of {a, b, c, d}: {got}", "coords")
        ctx.state(("coords", a, b, c, d))
    ctx.trace({"kind": "wrapped"}, outcome="wrapped")


def run(task, ctx):
    k = task["kind"]
    if k in ("curl", "dmag", "ask"):
        pats = fields(task["lat"]) if k == "curl" else (askings if k == "ask" else patterns)(task["src"])
        for lo in range(task["lo"], min(task["hi"], len(pats)), 40):
            idx = list(range(lo, min(lo + 40, task["hi"], len(pats))))
            (ask if k == "ask" else flow)(ctx, task, [pats[i] for i in idx], idx)
        return
    {"linear": linear, "spelling": spelling, "round": rounding, "month": months, "days": days, "duration": duration, "long": longs, "wrapped": wrapped}[k](ctx, task)


def replay_case(case, ctx):
    run(case["task"], ctx)
