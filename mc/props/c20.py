"""C20: data sources may be named, filed, ordered and labelled freely; unknown or incomplete ones are refused."""
import copy
import itertools
import os
import shutil

from mc import env
from mc.meshes import region_cfg, region_of, config, build_json, Obs, csv, base_cells
from mc.props import c16
from mc.sources import inside, aggregate, same

ID = "C20"
LEVEL = "model_checking"
RULE = ("a state is (spelling of the loader, way the files are given, division and order of the table's rows, names, defaults) -> "
        "values of all cells; a transition is one build on the real code; values are compared with the reference aggregate and "
        "between all equivalent ways of writing the same source")
ASSUMPTIONS = ["the files of a folder all belong to the source", "the list of known loaders is that of the documentation"]

REG = region_cfg(-8, 8, -8, 8, 8, 8)
KNOWN = ["scalar_csv", "scalar_grf", "binary_grf", "amsr", "bsose_sic", "bsose_depth", "baltic_sic", "gebco", "icenet", "modis",
         "visual_iced", "era5_sig_wave_height", "era5_max_wave_height", "era5_wave_dir", "era5_wave_period", "era5_wind_mag",
         "era5_wind_dir", "ecmwf_sig_wave_height", "circle", "rectangle", "gradient", "checkerboard", "vector_csv", "vector_grf",
         "baltic_currents", "era5_wind", "era5_wave_direction", "northsea_currents", "duacs_currents", "oras5_currents", "sose",
         "vector_circle", "vector_gradient", "vector_rectangle", "thickness", "density", "scotland_ncmpa", "lut_csv", "lut_geojson",
         "lut_shapefile"]
NEEDS = {"amsr": ["files", "hemisphere"], "scalar_grf": ["binary"], "binary_grf": ["binary"], "lut_geojson": ["files", "value"],
         "lut_shapefile": ["files", "value"]}
NOFILES = ("circle", "rectangle", "gradient", "checkerboard", "vector_grf", "vector_circle", "vector_gradient", "vector_rectangle",
           "thickness", "density", "scalar_grf", "binary_grf")
PTS = [(-5.0, -5.0, 1.0), (-5.0, -5.0, 1.0), (5.0, -1.0, 2.0), (2.0, 3.0, None), (6.0, 6.0, 8.0), (-5.0, -5.0, 16.0)]
VPTS = [(a, b, v, None if v is None else 3 - v) for a, b, v in PTS]


def bounds(tier):
    return (f"{len(KNOWN)} loader names; 4 spellings of every name that can be built; every name with one character removed, doubled "
            "or exchanged; every required parameter left out; every division of 6 rows over files (203) in every order of up to 3 "
            "files, as file, files and folder; every order of the 6 rows (720); "
            "every order of the columns, also a different one in each of two files; tables and vectors; renamed or not; defaults")


def spellings(n):
    return [n.upper(), n.capitalize(), "".join(c.upper() if i % 2 else c for i, c in enumerate(n)), n.title()]


def plain_source(name):
    """(region, parameters) of a small source of this name, or None."""
    if name in c16.FORMATS:
        r = dict(c16.reg_of("plain"), start_time=c16.DAYS[0], end_time=c16.DAYS[8])
        sp = c16.FORMATS[name]
        f = c16.Field(region_of(config(r)), base_cells(config(r)), None, [c16.DAYS[2]], sp["frac"])
        return r, {"files": sp["make"](f, "one", False)}
    if name == "scalar_csv":
        return REG, {"files": [csv(PTS, "lat,long,a")]}
    if name == "vector_csv":
        return REG, {"files": [csv(VPTS, "lat,long,u,v")], "data_name": "u,v"}
    if name in ("density", "thickness"):
        return REG, {}
    if name in ("circle", "gradient", "checkerboard"):
        return REG, {"nx": 5, "ny": 5, "data_name": "s"}
    if name in ("scalar_grf", "binary_grf"):
        return REG, {"binary": name == "binary_grf", "seed": 3, "size": 6, "data_name": "g"}
    if name == "vector_grf":
        return REG, {"seed": 3, "size": 6, "data_name": "x,y"}
    return None


def values(region, loader, params, depth=0):
    doc = build_json(config(region, [{"loader": loader, "params": copy.deepcopy(params)}], depth, 1))
    o = Obs(region_of(config(region)), doc)
    if o.errors:
        raise AssertionError(o.errors[0])
    return {r: o.data[i] for i, r in o.cells.items()}


def equal(a, b):
    if set(a) != set(b):
        return False
    for r in a:
        if set(a[r]) != set(b[r]):
            return False
        for k in a[r]:
            x, y = a[r][k], b[r][k]
            if not (x == y or (x != x and y != y)):
                return False
    return True


def name_case(ctx, name):
    case = {"name": name}
    with ctx.guard(case, "name"):
        s = plain_source(name)
        if s is None:
            return
        ref = values(s[0], name, s[1])
        ctx.step()
        for sp in spellings(name):
            got = values(s[0], sp, s[1])
            ctx.step()
            if not equal(got, ref):
                ctx.fail(case, f"loader written {sp!r} gives other values than {name!r}", "name")
                return
            ctx.state((name, sp))
            ctx.trace({"case": case}, outcome=name)


def refuse_build(ctx, case, loader, params, what):
    with ctx.guard(case, "refuse"):
        ctx.step()
        try:
            build_json(config(REG, [{"loader": loader, "params": copy.deepcopy(params)}], 0, 1))
        except Exception as e:
            ctx.state((case, "refused"))
            ctx.trace({"case": case}, outcome=type(e).__name__)
            return
        ctx.fail(case, f"{what} was accepted", "refuse")


def misspelled():
    out = set()
    for n in KNOWN:
        for i in range(len(n)):
            out.add(n[:i] + n[i + 1:])
            out.add(n[:i] + n[i] + n[i:])
            if i + 1 < len(n):
                out.add(n[:i] + n[i + 1] + n[i] + n[i + 2:])
        out.update((n + "s", n + " ", " " + n, n.replace("_", "-"), n.replace("_", "")))
    return sorted(out - set(KNOWN))


def missing():
    """(name, parameters without one required entry)."""
    f = csv(PTS, "lat,long,a")
    out = []
    for n in KNOWN:
        req = NEEDS.get(n, [] if n in NOFILES else ["files"])
        full = {"files": [f], "hemisphere": "south", "binary": False, "value": 1, "seed": 1, "size": 4}
        for r in req:
            p = {k: v for k, v in full.items() if k in req or k in ("seed", "size")}
            p.pop(r)
            if "files" not in req:
                p.pop("files", None)
            out.append((n, r, p))
    return out


# ------------------------------------------------------------------ dividing and ordering the rows
def partitions(n):
    """All set partitions of range(n), blocks in order of their least element."""
    def go(i, blocks):
        if i == n:
            yield [list(b) for b in blocks]
            return
        for b in blocks:
            b.append(i)
            yield from go(i + 1, blocks)
            b.pop()
        blocks.append([i])
        yield from go(i + 1, blocks)
        blocks.pop()
    return list(go(0, []))


_n = [0]
FORMS = ("part{}.csv", "part{}", "my data {}.v2.csv", "PART{}.CSV", "{}", "x.{}.txt")


def lines(rows):
    return "".join(",".join("" if v is None else repr(v) for v in r) + "\n" for r in rows)


def files_case(ctx, part, order, how, vec, agg, named):
    case = {"files": [part, list(order), how, vec, agg, named]}
    key = f"files:{how}"
    with ctx.guard(case, key):
        _n[0] += 1
        d = os.path.join(env.scratch(), f"dir{_n[0]}")
        os.mkdir(d)
        try:
            head = "lat,long,u,v\n" if vec else "lat,long,a\n"
            pts = VPTS if vec else PTS
            paths = []
            for k, b in enumerate(part):
                p = os.path.join(d, FORMS[(len(part) + len(b) + sum(order[:2]) + order[k] // 2) % len(FORMS)].format(order[k]))
                with open(p, "w") as f:
                    f.write(head + lines([pts[i] for i in b]))
                paths.append((order[k], p))
            paths = [p for _, p in sorted(paths)]
            params = {"aggregate_type": agg, "value_fill_types": "nan"}
            if how == "file":
                params["file"] = paths[0]
            elif how == "files":
                params["files"] = paths
            elif how == "folder":
                params["folder"] = d
            else:
                params["folder"] = d + "/"
            names = ["p", "q"] if vec else ["p"]
            if named:
                params["data_name"] = ",".join(names)
            else:
                names = ["u", "v"] if vec else ["a"]
            got = values(REG, "vector_csv" if vec else "scalar_csv", params)
        finally:
            shutil.rmtree(d, True)
        ctx.step()
        check(ctx, case, key, got, names, agg)


def check(ctx, case, key, got, names, agg):
    reg = region_of(config(REG))
    for r, data in got.items():
        if set(data) != set(names):
            ctx.fail(case, f"cell {tuple(r)} has values {sorted(data)}, expected {names}", key)
            return
        for j, n in enumerate(names):
            vs = [(a, b, (v if j == 0 else 3 - v)) for a, b, v in PTS if v is not None and inside(reg, r, a, b)]
            want = aggregate(agg, [v for *_, v in vs])
            if not same(data[n], want) and not (agg == "COUNT" and want == 0 and data[n] != data[n]):
                ctx.fail(case, f"cell {tuple(r)} {n}: {data[n]!r}, expected {want!r}", key)
                return
    ctx.state(case)
    ctx.trace({"case": case}, outcome=[len(got)])


def order_case(ctx, perm, agg, cols):
    """Rows in any order, columns in any order."""
    case = {"order": [list(perm), agg, list(cols)]}
    with ctx.guard(case, "order"):
        _n[0] += 1
        p = os.path.join(env.scratch(), f"o{_n[0] % 20}.csv")
        with open(p, "w") as f:
            f.write(",".join(("lat", "long", "a")[c] for c in cols) + "\n")
            f.write(lines([[PTS[i][c] for c in cols] for i in perm]))
        got = values(REG, "scalar_csv", {"files": [p], "aggregate_type": agg, "value_fill_types": "nan"})
        ctx.step()
        check(ctx, case, "order", got, ["a"], agg)


def cols_case(ctx, vec, cols, cols2, named, agg):
    """The columns of a table in any order, in a second file in another one; names by the configuration or the columns' own."""
    case = {"cols": [vec, list(cols), list(cols2), named, agg]}
    with ctx.guard(case, "cols"):
        pts = VPTS if vec else PTS
        own = ["u", "v"] if vec else ["a"]
        names = ["lat", "long"] + own + ["time"]
        paths = []
        for k, (c, rows) in enumerate(((cols, pts[:3]), (cols2, pts[3:]))):
            p = os.path.join(env.scratch(), f"col{k}.csv")
            with open(p, "w") as f:
                f.write(",".join(names[i] for i in c) + "\n")
                for r in rows:
                    r = ["" if v is None else repr(v) for v in r] + ["2020-01-02"]
                    f.write(",".join(r[i] for i in c) + "\n")
            paths.append(p)
        params = {"files": paths, "aggregate_type": agg, "value_fill_types": "nan"}
        if named:
            params["data_name"] = ",".join(own)
        got = values(REG, "vector_csv" if vec else "scalar_csv", params)
        ctx.step()
        check(ctx, case, "cols", got, own, agg)


def cols_list(tier):
    out = []
    for vec in (False, True):
        for n in ((3, 4) if not vec else (4, 5)):
            perms = list(itertools.permutations(range(n)))
            for k, c in enumerate(perms):
                for j in (0, 1, n, len(perms) // 2 + 1) if tier == "quick" else range(0, len(perms), 3):
                    m = len(out)
                    out.append((vec, c, perms[(k + j) % len(perms)], bool(m % 2), ("MEAN", "COUNT")[m // 2 % 2]))
                    if j == 0:
                        out.append((vec, c, c, not m % 2, "MEAN"))
    return out


def default_case(ctx, vec, which):
    """Left-out entries mean the documented defaults: MEAN, filling from the parent, the column's own name."""
    case = {"default": [vec, which]}
    with ctx.guard(case, "default"):
        full = {"aggregate_type": "MEAN", "value_fill_types": "parent", "data_name": "u,v" if vec else "a",
                "downsample_factors": [1, 1], "in_proj": "EPSG:4326", "out_proj": "EPSG:4326", "x_col": "lat", "y_col": "long"}
        f = [csv(VPTS, "lat,long,u,v")] if vec else [csv(PTS, "lat,long,a")]
        p = {k: v for k, v in full.items() if k not in which}
        region = REG
        ref = values(region, "vector_csv" if vec else "scalar_csv", dict(full, files=f))
        got = values(region, "vector_csv" if vec else "scalar_csv", dict(p, files=f))
        ctx.step(2)
        if not equal(ref, got):
            ctx.fail(case, f"leaving out {which} changes the result: {got} instead of {ref}", "default")
        ctx.state(case)
        ctx.trace({"case": case})


SC_AGGS = ("MEAN", "MIN", "MAX", "COUNT", "MEDIAN")
VEC_AGGS = ("MEAN", "COUNT")


def files_list(tier):
    out = []
    for k, part in enumerate(partitions(6)):
        if len(part) == 1:
            hows = ("file", "files", "folder", "folder/")
        else:
            hows = ("files", "folder", "folder/")
        orders = list(itertools.permutations(range(len(part)))) if len(part) <= 3 else [tuple(range(len(part))), tuple(range(len(part)))[::-1]]
        for j, o in enumerate(orders):
            for how in hows:
                n = len(out)
                out.append((part, o, how, False, SC_AGGS[n % 5], bool(n // 6 % 2)))
                if tier != "quick" or n % 3 == 0:
                    out.append((part, o, how, True, VEC_AGGS[n // 2 % 2], bool(n // 6 % 2)))
    return out


def order_list(tier):
    perms = list(itertools.permutations(range(6)))
    cols = list(itertools.permutations(range(3)))
    return [(p, SC_AGGS[(k // 6) % 5], cols[k % 6]) for k, p in enumerate(perms)] if tier == "quick" else \
        [(p, a, cols[(k + j) % 6]) for k, p in enumerate(perms) for j, a in enumerate(SC_AGGS)]


def default_list(tier):
    keys = ["aggregate_type", "value_fill_types", "data_name", "downsample_factors", "in_proj", "out_proj", "x_col", "y_col"]
    return [(v, w) for v in (False, True) for k in range(0, 9) for w in itertools.combinations(keys, k)]


def tasks(tier):
    t = [{"kind": "name", "lo": i} for i in range(0, len(KNOWN), 3)]
    for kind, n, size in (("mis", len(misspelled()), 400), ("missing", len(missing()), 20), ("files", len(files_list(tier)), 60),
                          ("order", len(order_list(tier)), 60), ("cols", len(cols_list(tier)), 60), ("default", len(default_list(tier)), 40)):
        t += [{"kind": kind, "lo": lo, "hi": min(n, lo + size)} for lo in range(0, n, size)]
    return t


def run(task, ctx):
    k = task["kind"]
    if k == "name":
        for n in KNOWN[task["lo"]:task["lo"] + 3]:
            name_case(ctx, n)
        return
    lo, hi = task["lo"], task["hi"]
    if k == "mis":
        f = csv(PTS, "lat,long,a")
        for n in misspelled()[lo:hi]:
            refuse_build(ctx, {"unknown": n}, n, {"files": [f], "hemisphere": "south", "binary": False, "value": 1, "seed": 1, "size": 4},
                         f"the unknown loader {n!r}")
    elif k == "missing":
        for n, r, p in missing()[lo:hi]:
            refuse_build(ctx, {"missing": [n, r]}, n, p, f"{n} without {r!r}")
    elif k == "files":
        for c in files_list(ctx.tier)[lo:hi]:
            files_case(ctx, *c)
    elif k == "order":
        for c in order_list(ctx.tier)[lo:hi]:
            order_case(ctx, *c)
    elif k == "cols":
        for c in cols_list(ctx.tier)[lo:hi]:
            cols_case(ctx, *c)
    else:
        for c in default_list(ctx.tier)[lo:hi]:
            default_case(ctx, *c)


def replay_case(case, ctx):
    if "name" in case:
        return name_case(ctx, case["name"])
    if "unknown" in case:
        f = csv(PTS, "lat,long,a")
        return refuse_build(ctx, case, case["unknown"], {"files": [f], "hemisphere": "south", "binary": False, "value": 1, "seed": 1,
                                                         "size": 4}, "an unknown loader")
    if "missing" in case:
        for n, r, p in missing():
            if [n, r] == case["missing"]:
                refuse_build(ctx, case, n, p, f"{n} without {r!r}")
        return
    if "files" in case:
        return files_case(ctx, *case["files"])
    if "cols" in case:
        return cols_case(ctx, *case["cols"])
    if "order" in case:
        return order_case(ctx, *case["order"])
    v, w = case["default"]
    return default_case(ctx, v, tuple(w))
