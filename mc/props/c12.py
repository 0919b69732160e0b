"""C12: a configuration is accepted exactly when it is well formed, and its dates are resolved once, as documented."""
import copy
import datetime
import itertools
import json
import math
import os
import re

from mc import env
from mc.geom import frac
from mc.meshes import region_cfg, config, builder, base_cells, csv

ID = "C12"
LEVEL = "model_checking"
RULE = ("a state is a configuration; a transition hands it to the validator (as dictionary and as file) and to a build; "
        "the oracle is an independent statement of well-formedness, and for accepted ones the recorded region, dates and "
        "number of initial cells")
ASSUMPTIONS = ["latitudes within +-90 and ranges of positive extent", "integral floats are not used where an integer is asked for",
               "today's date is read before and after each call"]

DEL = "<absent>"
BASE = {"region": region_cfg(-4, 4, -16, 0, 8, 4), "data_sources": [], "splitting": {"split_depth": 1, "minimum_datapoints": 1}}
WRONG = ["1", None, True, [1], {}]
# path -> [(value, ok)] ; cross-field conditions are decided by `well_formed`
FIELDS = {
    ("region", "lat_min"): [-8, -4.0, -3, 8, 4.5] + WRONG + [DEL],
    ("region", "lat_max"): [8, 12.0, 3, -8] + WRONG + [DEL],
    ("region", "long_min"): [-180, -8.0, -15, 180, -181, 184, 172, 16] + WRONG + [DEL],
    ("region", "long_max"): [180, 8.0, -180, 181, 1, 176, -24, -188] + WRONG + [DEL],
    ("region", "cell_width"): [4, 16.0, 3, 0.5, 0] + WRONG + [DEL],
    ("region", "cell_height"): [8, 2.0, 3, 0.25, 0] + WRONG + [DEL],
    ("region", "start_time"): ["2020-01-31", "2020-02-01", "2019-02-29", "2020-02-29", "TODAY", "x", "", 20200101, None, DEL],
    ("region", "end_time"): ["2020-01-01", "2019-12-31", "2020-02-30", "TODAY", "TODAY+3", "2020/01/31", 20200131, None, DEL],
    ("region", "extra"): [1],
    ("region",): [DEL, [], None, "x"],
    ("splitting", "split_depth"): [0, 2, 0.5, "1", None, [1], DEL],
    ("splitting", "minimum_datapoints"): [0, 7, -1, 0.5, "1", None, [1], DEL],
    ("splitting", "extra"): [1],
    ("splitting",): [DEL, [], None],
    ("data_sources",): [DEL, {}, None, "x", [{}], [[]], [{"loader": "scalar_csv"}], [{"params": {}}],
                        [{"loader": 1, "params": {}}], [{"loader": "scalar_csv", "params": []}],
                        "<good>", "<good+bad>", "<extra>"],
}


def bounds(tier):
    n = 2 if tier == "quick" else 3
    return (f"every combination of <= {n} changes from {sum(len(v) for v in FIELDS.values())} changes of single entries of a "
            f"configuration; every date string of a grammar ({len(date_strings())} strings) at either end of the period; "
            "cell sizes and extents that are whole multiples of decimal units, and extents off by a part of a cell; all vessel, route and waypoint inputs with <= 2 changes")


# ------------------------------------------------------------------ date strings
def date_strings():
    out = []
    for y in ("1900", "2000", "2019", "2020"):
        for m in range(0, 14):
            for d in range(0, 33):
                out.append(f"{y}-{m:02d}-{d:02d}")
    for s1, op, s2, n, suf in itertools.product(("", " "), ("", "+", "-", "*", "+-", ","), ("", " "),
                                                ("", "0", "1", "28", "31", "366", "x"), ("", "z", "-3", "+3")):
        out.append("TODAY" + s1 + op + s2 + n + suf)
    out += ["", "x", "2020", "2020-01", "01-01-2020", "2020/01/01", "2020-01-01T00:00:00", "2020-01-01 ", "YESTERDAY",
            "TODAY TODAY", "2020-01-01TODAY", "TODAY2020-01-01", "+3", "TOMORROW", "0000-00-00", "99999-01-01", "2020-1-1z"]
    return sorted(set(out))


def resolve(s, today):
    """Reference meaning of a date string: a date, None if invalid."""
    if not isinstance(s, str):
        return None
    if re.fullmatch(r"\d{4}-\d{2}-\d{2}", s):
        try:
            return datetime.date(int(s[:4]), int(s[5:7]), int(s[8:]))
        except ValueError:
            return None
    t = s.replace(" ", "")
    if s == "TODAY":
        return today
    m = re.fullmatch(r"TODAY([+-])(\d+)", t)
    if m:
        n = int(m.group(2))
        return today + datetime.timedelta(days=n if m.group(1) == "+" else -n)
    return None


def ambiguous(s):
    """Spellings whose status the documentation leaves open."""
    return isinstance(s, str) and s != "TODAY" and s.strip() == "TODAY"


# ------------------------------------------------------------------ well-formedness
def num(v):
    return isinstance(v, (int, float)) and not isinstance(v, bool)


def well_formed(c, today):
    """Independent statement; returns (ok, resolved dates) or None when left open."""
    if not all(k in c for k in ("region", "data_sources", "splitting")):
        return False, None
    r, d, s = c["region"], c["data_sources"], c["splitting"]
    if not isinstance(r, dict) or not isinstance(s, dict) or not isinstance(d, list):
        return False, None
    keys = {"lat_min", "lat_max", "long_min", "long_max", "start_time", "end_time", "cell_width", "cell_height"}
    if set(r) != keys or set(s) != {"split_depth", "minimum_datapoints"}:
        return False, None
    if not all(num(r[k]) for k in keys if not k.endswith("time")):
        return False, None
    for k in s:
        if not isinstance(s[k], int) or isinstance(s[k], bool):
            return False, None
    if s["minimum_datapoints"] < 0:
        return False, "build"
    for x in d:
        if not isinstance(x, dict) or set(x) != {"loader", "params"} or not isinstance(x["loader"], str) \
                or not isinstance(x["params"], dict) or "files" not in x["params"]:
            return False, None
    if ambiguous(r["start_time"]) or ambiguous(r["end_time"]):
        return None
    t0, t1 = resolve(r["start_time"], today), resolve(r["end_time"], today)
    if t0 is None or t1 is None:
        return False, None
    if t0 > t1 or r["lat_min"] > r["lat_max"]:
        return False, "build"           # at the latest when building
    if r["lat_min"] == r["lat_max"] or (r["long_min"] - r["long_max"]) % 360 == 0 and r["long_min"] >= r["long_max"]:
        return None                     # degenerate extents are left open
    if not all(-180 <= r[k] <= 180 for k in ("long_min", "long_max")):
        return False, "build"
    if r["cell_width"] <= 0 or r["cell_height"] <= 0:
        return False, None
    q = {k: frac(v) if num(v) and math.isfinite(v) else v for k, v in r.items()}
    w = (q["long_max"] - q["long_min"]) % 360 or 360
    h = q["lat_max"] - q["lat_min"]
    if w % q["cell_width"] or h % q["cell_height"]:
        return False, None
    if r["cell_width"] >= 180 or w == 360 and w / r["cell_width"] < 3:
        return None
    return True, (str(t0), str(t1))


def good_source():
    return {"loader": "scalar_csv", "params": {"files": [csv([(1.0, -2.0, 3.0)], "lat,long,a")], "data_name": "a"}}


def apply(changes):
    c = copy.deepcopy(BASE)
    for path, v in changes:
        o = c
        for k in path[:-1]:
            o = o[k]
        if v == "<good>":
            v = [good_source()]
        elif v == "<good+bad>":
            v = [good_source(), {"loader": "scalar_csv"}]
        elif v == "<extra>":
            v = [dict(good_source(), note="x")]
        if isinstance(v, str) and v == DEL:
            o.pop(path[-1], None)
        else:
            o[path[-1]] = copy.deepcopy(v)
    return c


def combos(n):
    flat = [(p, v) for p in sorted(FIELDS) for v in FIELDS[p]]
    out = [()]
    for k in range(1, n + 1):
        for cs in itertools.combinations(flat, k):
            ps = [p for p, _ in cs]
            # a change of a whole section excludes changes inside it; one change per entry
            if len(set(ps)) < len(ps) or any(a != b and b[:len(a)] == a for a in ps for b in ps):
                continue
            if k == 3 and not any(p[-1] in ("long_min", "long_max", "lat_min", "cell_width", "start_time", "end_time")
                                  for p in ps):
                continue
            out.append(cs)
    return out


_C = {}


def combo_list(n):
    if n not in _C:
        _C[n] = combos(n)
    return _C[n]


def tasks(tier):
    t = []
    n = 2 if tier == "quick" else 3
    m = len(combo_list(n))
    size = 250 if tier == "quick" else 4000
    for lo in range(0, m, size):
        t.append({"kind": "cfg", "n": n, "lo": lo, "hi": min(m, lo + size)})
    m = len(date_strings())
    for lo in range(0, m, 400):
        t.append({"kind": "date", "lo": lo, "hi": min(m, lo + 400)})
    t += [{"kind": "sizes", "unit": u} for u in UNITS]
    t += [{"kind": "vessel"}, {"kind": "route"}, {"kind": "waypoints"}]
    return t


def attempt(f):
    """True/False: accepted/refused.  Refusal is any ordinary exception."""
    try:
        return True, f()
    except Exception as e:
        return False, f"{type(e).__name__}: {e}"


def config_case(ctx, case, c, full=True):
    """One configuration through the validator and a build."""
    from meshiphi.config_validation.config_validator import validate_mesh_config
    d0 = datetime.date.today()
    results = []
    with ctx.guard(case, "config"):
        path = os.path.join(env.scratch(), "c12.json")
        with open(path, "w") as f:
            json.dump(c, f)
        before = copy.deepcopy(c)
        va, _ = attempt(lambda: validate_mesh_config(c))
        if c != before:
            ctx.fail(case, "validation changed the configuration it was given", "mutated")
        vf, why = attempt(lambda: validate_mesh_config(path))
        ba, got = attempt(lambda: builder(c).build_environmental_mesh().to_json())
        ctx.step(3)
        d1 = datetime.date.today()
        exp = [well_formed(c, d0), well_formed(c, d1)]
        if exp[0] is None:
            return
        ok = exp[0][0]
        if va != vf:
            ctx.fail(case, f"the validator {'accepts' if va else 'refuses'} the dictionary and "
                           f"{'accepts' if vf else 'refuses'} the file with the same content ({why})", "file")
        if ok != va and exp[0][1] != "build":
            ctx.fail(case, f"the validator {'accepts a malformed' if va else 'refuses a well-formed'} configuration", "validator")
        if ba != ok:
            ctx.fail(case, f"a {'well-formed' if ok else 'malformed'} configuration is {'built' if ba else 'refused: ' + str(got)}",
                     "accept")
        elif ok:
            r = got["config"]["mesh_info"]["region"]
            if (r["start_time"], r["end_time"]) not in [e[1] for e in exp]:
                ctx.fail(case, f"period recorded as {r['start_time']}..{r['end_time']}, expected {exp[0][1]}", "dates")
            want = {k: v for k, v in c["region"].items() if not k.endswith("time")}
            if {k: r[k] for k in want} != want:
                ctx.fail(case, f"recorded region {r} differs from the configured {want}", "region")
            n = len(got["cellboxes"])
            if n != len(base_cells(c)):
                ctx.fail(case, f"{n} initial cells, expected {len(base_cells(c))}", "cells")
        ctx.state(("cfg", str(case)))
        ctx.trace({"case": case, "accepted": ba}, outcome=(va, ba))


UNITS = (0.01, 0.05, 0.1, 0.2, 0.3, 0.6, 0.7, 1.1, 2.4)


def size_cases(unit):
    """Decimal extents of 1..4 units and cell sizes that do and do not divide them."""
    u = frac(unit)
    for axis, (lo, n) in itertools.product(("lat", "long"), itertools.product((0, 0.1, -60.7, -75.3, 33.33, 179.9), (1, 2, 3, 4))):
        if axis == "lat" and lo > 90:
            continue
        hi = frac(lo) + n * u
        if hi > 180:
            hi -= 360
        for num_, den in ((1, 1), (1, 2), (1, 4), (2, 1), (3, 1), (2, 3), (3, 4), (5, 1), (10, 1), (101, 100)):
            size = u * num_ / den
            if (size * 10 ** 6).denominator != 1:
                continue
            size = float(size)
            yield [(("region", axis + "_min"), lo), (("region", axis + "_max"), float(hi)),
                   (("region", "cell_" + ("height" if axis == "lat" else "width")), size)]


def jsonable(cs):
    return [[list(p), v] for p, v in cs]


def run(task, ctx):
    k = task["kind"]
    if k == "cfg":
        for cs in combo_list(task["n"])[task["lo"]:task["hi"]]:
            config_case(ctx, {"changes": jsonable(cs)}, apply(cs))
    elif k == "sizes":
        for cs in size_cases(task["unit"]):
            config_case(ctx, {"changes": jsonable(cs)}, apply(cs))
    elif k == "date":
        for s in date_strings()[task["lo"]:task["hi"]]:
            date_case(ctx, s)
    else:
        other(ctx, k)


def date_case(ctx, s):
    case = {"date": s}
    r = resolve(s, datetime.date.today())
    ends = [("start_time", {"end_time": "9999-01-01"}), ("end_time", {"start_time": "1800-01-01"})]
    for key, rest in ends:
        c = copy.deepcopy(BASE)
        c["region"].update(rest)
        c["region"][key] = s
        config_case(ctx, dict(case, end=key), c)
    # the same string straight into a boundary
    from meshiphi.mesh_generation.boundary import Boundary
    if ambiguous(s):
        return
    with ctx.guard(case, "boundary-date"):
        d0 = datetime.date.today()
        good, b = attempt(lambda: Boundary([0, 1], [0, 1], [s, s]))
        ctx.step()
        d1 = datetime.date.today()
        if r is not None:
            if not good or b.get_time_min() not in (str(resolve(s, d0)), str(resolve(s, d1))) \
                    or b.get_time_max() not in (str(resolve(s, d0)), str(resolve(s, d1))):
                ctx.fail(case, f"boundary from {s!r}: {b.get_time_range() if good else b}, expected {r}", "boundary-date")
        elif good and re.fullmatch(r"\d{4}-\d{2}-\d{2}", s):
            ctx.fail(case, f"boundary accepts the impossible date {s}", "boundary-date")


# ------------------------------------------------------------------ vessel, route and waypoints
VESSEL = ({"VesselType": "SDA", "MaxSpeed": 26.5, "Unit": "km/hr", "MaxIceConc": 80, "MinDepth": 10},
          {"VesselType": [("x", 1), (1, 0), (None, 0), (DEL, 0)],
           "MaxSpeed": [(0, 1), (-1, 0), ("1", 0), (None, 0), (DEL, 0), (True, 0)],
           "Unit": [("knots", 1), (1, 0), (DEL, 0)],
           "MaxIceConc": [(0, 1), (100, 1), (100.5, 0), (-0.5, 0), ("80", 0), (DEL, 0)],
           "MinDepth": [(0, 1), (-1, 0), ("x", 0), (DEL, 0)],
           "Beam": [(24.0, 1), ("x", 1)]})
ROUTE = ({"objective_function": "traveltime", "path_variables": ["fuel", "traveltime"], "vector_names": ["uC", "vC"],
          "variable_speed": True, "time_unit": "days", "early_stopping_criterion": True, "zero_currents": False},
         {"objective_function": [("fuel", 1), (1, 0), (DEL, 0)],
          "path_variables": [([], 1), (["a"], 1), ([1], 0), ("a", 0), (DEL, 0)],
          "vector_names": [(["a", "b"], 1), (["a"], 0), (["a", "b", "c"], 0), ([1, 2], 0), ("ab", 0), (DEL, 0)],
          "variable_speed": [(False, 1), (1, 0), ("true", 0), (DEL, 0)],
          "time_unit": [("hours", 1), ("seconds", 1), ("minutes", 0), ("Days", 0), (1, 0), (DEL, 0)],
          "early_stopping_criterion": [(False, 1), (0, 0), (DEL, 0)],
          "zero_currents": [(True, 1), ("no", 0), (DEL, 0)],
          "smoothing_max_iterations": [(10, 1), (1.5, 0), ("1", 0)],
          "smoothing_blocked_sic": [(1.5, 1), ("1", 0)],
          "smoothing_merge_separation": [(1e-3, 1), (None, 0)],
          "smoothing_converged_sep": [(1, 1), ([], 0)],
          "unknown": [(1, 1)]})


def other(ctx, kind):
    from meshiphi.config_validation import config_validator as cv
    if kind == "waypoints":
        return waypoints(ctx)
    base, alts = VESSEL if kind == "vessel" else ROUTE
    f = cv.validate_vessel_config if kind == "vessel" else cv.validate_route_config
    flat = [(k, v, ok) for k in sorted(alts) for v, ok in alts[k]]
    for n in (0, 1, 2):
        for cs in itertools.combinations(flat, n):
            if len({k for k, _, _ in cs}) < n:
                continue
            c = copy.deepcopy(base)
            for k, v, _ in cs:
                if isinstance(v, str) and v == DEL:
                    c.pop(k)
                else:
                    c[k] = v
            exp = all(ok for _, _, ok in cs)
            case = {"other": kind, "changes": [[k, v] for k, v, _ in cs]}
            with ctx.guard(case, kind):
                path = os.path.join(env.scratch(), "c12o.json")
                with open(path, "w") as fh:
                    json.dump(c, fh)
                a, _ = attempt(lambda: f(c))
                b, _ = attempt(lambda: f(path))
                ctx.step(2)
                if bool(exp) != a or a != b:
                    ctx.fail(case, f"{kind}: accepted as dictionary {a}, as file {b}, well formed {bool(exp)}", kind)
                ctx.state((kind, str(case)))
                ctx.trace(outcome=(kind, a))
    for bad in (1, None, [base], 2.5, os.path.join(env.scratch(), "missing.json")):
        a, _ = attempt(lambda: f(bad))
        ctx.step()
        if a:
            ctx.fail({"other": kind, "bad": str(bad)}, f"{kind}: {bad!r} accepted", kind)


def waypoints(ctx):
    import pandas as pd
    from meshiphi.config_validation.config_validator import validate_waypoints
    cols = ["Name", "Lat", "Long", "Source", "Destination"]
    cells = {"Lat": [1.5, "x", ""], "Long": [-170, "1e", ""], "Source": ["X", ""], "Destination": ["X", ""]}
    rows = list(itertools.product(*cells.values()))
    drops = [()] + [(c,) for c in cols]
    for drop in drops:
        for a in rows:
            for b in (rows if not drop else rows[:4]):
                recs = [["A"] + list(a), ["B"] + list(b)]
                case = {"waypoints": recs, "drop": list(drop)}
                ok = not drop and all(isinstance(r[1], (int, float)) and isinstance(r[2], (int, float)) for r in recs) \
                    and any(r[3] == "X" for r in recs) and any(r[4] == "X" for r in recs)
                with ctx.guard(case, "waypoints"):
                    df = pd.DataFrame(recs, columns=cols).drop(columns=list(drop))
                    path = os.path.join(env.scratch(), "w.csv")
                    df.to_csv(path, index=False)
                    x, _ = attempt(lambda: validate_waypoints(df))
                    y, _ = attempt(lambda: validate_waypoints(path))
                    ctx.step(2)
                    if x != ok or y != ok:
                        ctx.fail(case, f"waypoints: table accepted {x}, file accepted {y}, well formed {ok}", "waypoints")
                    ctx.state(("wp", str(case)))
                    ctx.trace(outcome=("wp", x))


def replay_case(case, ctx):
    if "task" in case:
        return run(case["task"], ctx)
    if "changes" in case and "other" not in case:
        cs = [(tuple(p), v) for p, v in case["changes"]]
        return config_case(ctx, case, apply(cs))
    if "date" in case:
        return date_case(ctx, case["date"])
    other(ctx, case.get("other", "waypoints"))
