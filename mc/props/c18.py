"""C18: the command line programs do exactly what the library does, and nothing else."""
import copy
import itertools
import json
import os
import shutil
import subprocess
import sys

from mc import env
from mc.core import digest
from mc.meshes import region_cfg, config, csv
from mc.props.c14 import isolated, difference, MB

ID = "C18"
LEVEL = "model_checking"
RULE = ("a state is the content of a working directory (meshes, a directory of meshes, exports); a transition is one command "
        "(create_mesh, rebuild_mesh, export_mesh, merge_mesh, merge_mesh -d, or a file copy) run on the real entry point in a "
        "process of its own; the model applies the library calls to the documents; every file is compared after every command")
ASSUMPTIONS = ["the library calls themselves are judged by the other properties",
               "the entry points are those named in pyproject.toml", "TIF and PNG export by the command are covered in C24"]

COMMANDS = {"create_mesh": "create_mesh_cli", "export_mesh": "export_mesh_cli",
            "rebuild_mesh": "rebuild_mesh_cli", "merge_mesh": "merge_mesh_cli"}
DEFAULTS = {"create_mesh": "create_mesh.output.json", "rebuild_mesh": "rebuild_mesh.output.json",
            "merge_mesh": "merged_mesh.output.json"}
EXPORT_DEFAULTS = {"JSON": "mesh.json", "GEOJSON": "mesh_geo.json"}

OPS = (("create", "c0", "a.json"), ("create", "c1", "b.json"), ("create", "c2", "b.json"), ("create", "c3", "b.json"),
       ("rebuild", "a.json", "a.json"), ("rebuild", "b.json", "m.json"),
       ("export", "a.json", "JSON", "a.json"), ("export", "m.json", "geojson", "g.json"),
       ("merge", "a.json", "b.json", "a.json"), ("merge", "a.json", "b.json", "m.json"), ("merge", "m.json", "b.json", "m.json"),
       ("copy", "b.json", "d/10.json"), ("copy", "b.json", "d/9.json"), ("mergedir", "a.json", "d", "m.json"))
STARTS = ("empty", "two")


def bounds(tier):
    return (f"every sequence of {3 if tier == 'quick' else 4} commands from {len(OPS)} on a working directory (equal directories "
            "merged), starting empty and with two meshes; every listing order of a directory of four meshes; every command with "
            "and without -o, -v, relative and absolute paths, an older output in place, spellings of the format, layer selection; "
            "every command with each input missing, unreadable or unsuitable, in process and as a separate process")


# ------------------------------------------------------------------ world
def make_confs():
    rows = [(a + .5, b + .5, float((3 * i + 5 * j) % 7) / 2) for i, a in enumerate(range(-8, 8, 2))
            for j, b in enumerate(range(-8, 8, 2))]
    p = csv(rows, "lat,long,a")

    def src(t, agg="MAX", **kw):
        return [{"loader": "scalar_csv", "params": dict({
            "files": [p], "data_name": "a", "aggregate_type": agg,
            "splitting_conditions": [{"a": {"threshold": t, "lower_bound": 0.0, "upper_bound": 1.0}}]}, **kw)}]
    return {"c0": config(region_cfg(-8, 8, -8, 8, 8, 8), src(2.6), 1, 1),
            "c1": config(region_cfg(0, 8, 0, 8, 4, 4), src(0.5, "MIN"), 1, 1),
            "c2": config(region_cfg(-8, 8, 0, 8, 8, 8), src(1.5, "MEAN"), 0, 1),
            "c3": config(region_cfg(1, 7, 1, 7, 3, 3), [], 0, 1),          # off the grid of c0
            "c4": config(region_cfg(-8, 0, -8, 8, 8, 8), src(1.0, "COUNT"), 2, 4)}


_w = {}


def confs():
    if "c" not in _w:
        import meshiphi.cli  # noqa  imported before the children are forked; the worker itself runs nothing
        from tqdm import tqdm
        tqdm.get_lock()
        _w["c"] = make_confs()
        _w["memo"] = {}
    return _w["c"]


def lib(key, fn):
    """Library result in a process of its own, computed once: ("ok", value) or ("error", text)."""
    confs()
    k = digest(key)
    if k not in _w["memo"]:
        _w["memo"][k] = isolated(fn)
    return _w["memo"][k]


def load(doc):
    from meshiphi.mesh_generation.environment_mesh import EnvironmentMesh
    return EnvironmentMesh.load_from_json(copy.deepcopy(doc))


def text(doc):
    """What a document looks like after having been written and read."""
    return json.loads(json.dumps(doc))


def lib_create(cfg):
    return lib(["create", cfg], lambda: text(MB(copy.deepcopy(cfg)).build_environmental_mesh().to_json()))


def lib_merge(a, bs):
    def go():
        m = load(a)
        for b in bs:
            m.merge_mesh(load(b))
        return text(m.to_json())
    return lib(["merge", a, bs], go)


def lib_export(doc, fmt, conf=None):
    if fmt.upper() == "JSON":
        return lib(["json", doc], lambda: text(load(doc).to_json()))
    return lib(["geojson", doc, conf], lambda: text(load(doc).to_geojson(conf)))


def entry(cmd):
    """The function behind a command, as the project declares it."""
    import importlib
    mod, fn = "meshiphi.cli", COMMANDS[cmd]
    try:
        import tomllib
        with open(os.path.join(env.REPO, "pyproject.toml"), "rb") as f:
            mod, fn = tomllib.load(f)["project"]["scripts"][cmd].split(":")
    except (OSError, KeyError, ImportError):
        pass
    return getattr(importlib.import_module(mod), fn)


def command(cwd, cmd, *args, listing=None):
    """Run a command in a process of its own: ("ok", exit status) or ("error", text)."""
    confs()

    def go():
        os.chdir(cwd)
        env.quiet_fds()
        if listing:
            arrange_listing(listing)
        sys.argv = [cmd, *args]
        try:
            entry(cmd)()
        except SystemExit as e:
            return 0 if e.code in (None, 0) else 1
        return 0
    return isolated(go)


def arrange_listing(perm):
    """The operating system lists a directory of len(perm) entries in this order."""
    real_list, real_scan = os.listdir, os.scandir

    def arrange(xs, key):
        xs = sorted(xs, key=key)
        return [xs[i] for i in perm] if len(xs) == len(perm) else xs

    class Scan:
        def __init__(self, p="."):
            with real_scan(p) as it:
                self.e = iter(arrange(list(it), lambda x: x.name))

        def __iter__(self):
            return self.e

        def __next__(self):
            return next(self.e)

        def __enter__(self):
            return self

        def __exit__(self, *a):
            return False

        def close(self):
            pass
    os.listdir = lambda p=".": arrange(real_list(p), str)
    os.scandir = Scan


def fresh_dir():
    _w["n"] = _w.get("n", 0) + 1
    d = os.path.join(env.scratch(), f"w{_w['n']}")
    os.mkdir(d)
    return d


def put(d, files):
    for name, body in files.items():
        p = os.path.join(d, name)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "w") as f:
            f.write(body if isinstance(body, str) else json.dumps(body, indent=4))


def snapshot(d):
    out = {}
    for base, dirs, names in os.walk(d):
        for n in names:
            p = os.path.join(base, n)
            with open(p, "rb") as f:
                out[os.path.relpath(p, d)] = f.read()
    return out


def compare(ctx, case, key, before, after, target, want, res, what):
    """want: expected ("ok", doc) or ("error", reason).  All other files must be as before."""
    if want[0] == "ok":
        if res != ("ok", 0):
            ctx.fail(case, f"{what}: the command failed ({res[1]}) where the library succeeds", key + ":failed")
            return False
        if target not in after:
            ctx.fail(case, f"{what}: no output in {target}; files: {sorted(after)}", key + ":output")
            return False
        try:
            doc = json.loads(after[target])
        except ValueError as e:
            ctx.fail(case, f"{what}: {target} is not a complete JSON document: {e}", key + ":output")
            return False
        d = difference(doc, want[1])
        if d:
            ctx.fail(case, f"{what}: the written document differs from the library's: {d}", key + ":content")
            return False
        rest = {k: v for k, v in after.items() if k != target}
        base = {k: v for k, v in before.items() if k != target}
    else:
        if res == ("ok", 0):
            ctx.fail(case, f"{what}: the command reports success though {want[1]}", key + ":refuse")
            return False
        rest, base = after, before
    if rest != base:
        diff = sorted(k for k in set(rest) | set(base) if rest.get(k) != base.get(k))
        ctx.fail(case, f"{what}: other files were created or changed: {diff}", key + ":sideeffect")
        return False
    return True


# ------------------------------------------------------------------ sequences of commands
def start(name):
    if name == "empty":
        return {}
    return {"a.json": lib_create(confs()["c0"])[1], "b.json": lib_create(confs()["c1"])[1]}


def expected(op, st):
    """(arguments, target, expected result) of a command in a state {file: document}."""
    need = {"create": [], "rebuild": [op[1]], "export": [op[1]], "merge": [op[1], op[2]], "mergedir": [op[1]]}[op[0]]
    for n in need:
        if n not in st:
            return "error", f"{n} does not exist"
    if op[0] == "create":
        return lib_create(confs()[op[1]])
    if op[0] == "rebuild":
        return lib_create(st[op[1]]["config"]["mesh_info"]) if "config" in st[op[1]] else ("error", "it holds no configuration")
    if op[0] == "export":
        return lib_export(st[op[1]], op[2])
    if op[0] == "merge":
        return lib_merge(st[op[1]], [st[op[2]]])
    names = sorted(n for n in st if n.startswith(op[2] + "/"))
    if not names:
        return "error", "the directory does not exist"
    return lib_merge(st[op[1]], [st[n] for n in names])


def argv(op):
    if op[0] == "create":
        return "create_mesh", op[1] + ".cfg", "-o", op[2]
    if op[0] == "rebuild":
        return "rebuild_mesh", op[1], "-o", op[2]
    if op[0] == "export":
        return "export_mesh", op[1], op[2], "-o", op[3]
    if op[0] == "merge":
        return "merge_mesh", op[1], op[2], "-o", op[3]
    return "merge_mesh", op[1], op[2], "-d", "-o", op[3]


def apply(ctx, case, st, op):
    """Next state, or None after a violation."""
    if op[0] == "copy":
        return dict(st, **{op[2]: st[op[1]]}) if op[1] in st else st
    d = fresh_dir()
    try:
        put(d, st)
        put(d, {k + ".cfg": v for k, v in confs().items()})
        before = snapshot(d)
        res = command(d, *argv(op))
        after = snapshot(d)
    finally:
        shutil.rmtree(d, True)
    ctx.step()
    want = expected(op, st)
    if not compare(ctx, case, op[0], before, after, op[-1], want, res, " ".join(argv(op))):
        return None
    return dict(st, **{op[-1]: want[1]}) if want[0] == "ok" else st


def explore(ctx, s0, first, depth):
    """All sequences of commands that begin with `first`, equal directories merged."""
    level = [([], start(s0))]
    seen = set()
    for k in range(depth):
        nxt = []
        for hist, st in level:
            for i, op in enumerate(OPS):
                if k == 0 and i != first:
                    continue
                h = hist + [i]
                case = {"start": s0, "ops": h}
                with ctx.guard(case, "sequence"):
                    t = apply(ctx, case, st, op)
                    if t is None:
                        continue
                    dg = digest(sorted((n, digest(v).hex()) for n, v in t.items()))
                    ctx.trace({"case": case}, outcome=(op[0], t is st))
                    if dg not in seen:
                        seen.add(dg)
                        ctx.state(dg.hex())
                        if t is not st or k == 0:
                            nxt.append((h, t))
        level = nxt


def replay_seq(ctx, case):
    st = start(case["start"])
    with ctx.guard(case, "sequence"):
        for i in case["ops"]:
            st = apply(ctx, case, st, OPS[i])
            if st is None:
                return
        ctx.trace({"case": case})


# ------------------------------------------------------------------ single commands
def listing_case(ctx, perm):
    case = {"listing": list(perm)}
    with ctx.guard(case, "listing"):
        docs = [lib_create(confs()[c])[1] for c in ("c0", "c1", "c2", "c4", "c1")]
        st = {"a.json": docs[0], "d/10.json": docs[1], "d/9.json": docs[2], "d/a.json": docs[3], "d/B.json": docs[4]}
        d = fresh_dir()
        try:
            put(d, st)
            before = snapshot(d)
            res = command(d, "merge_mesh", "a.json", "d", "-d", "-o", "m.json", listing=perm)
            after = snapshot(d)
        finally:
            shutil.rmtree(d, True)
        ctx.step()
        want = lib_merge(docs[0], [st[n] for n in sorted(st) if n.startswith("d/")])
        compare(ctx, case, "listing", before, after, "m.json", want, res, f"merge_mesh -d, directory listed in order {perm}")
        ctx.state(case)
        ctx.trace({"case": case})


def singles():
    """(name, files besides the configurations, command line, target, expected result as a thunk of the documents)."""
    out = []
    o = {"old": "x" * 200000}

    def add(name, files, args, target, want):
        out.append((name, files, args, target, want))
    for v in ([], ["-v"], ["--verbose"]):
        for outp, target in ((None, None), (["-o", "out.json"], "out.json"), (["--output", "sub/x.out"], "sub/x.out")):
            for old in (False, True):
                tag = f"{v}{outp}{old}"

                def files(target, extra=None):
                    f = dict(extra or {}, **{"sub/keep": "1"})
                    if old:
                        f[target] = o
                    return f
                t = target or DEFAULTS["create_mesh"]
                add("create" + tag, files(t), ["create_mesh", "c0.cfg", *(outp or []), *v], t, ("create", "c0"))
                t = target or DEFAULTS["rebuild_mesh"]
                add("rebuild" + tag, files(t, {"a.json": "@c0"}), ["rebuild_mesh", *v, "a.json", *(outp or [])], t, ("create", "c0"))
                t = target or DEFAULTS["merge_mesh"]
                add("merge" + tag, files(t, {"a.json": "@c0", "b.json": "@c1"}),
                    ["merge_mesh", "a.json", "b.json", *v, *(outp or [])], t, ("merge", "c0", ["c1"]))
                for dflag in ("-d", "--directory"):
                    add("mergedir" + dflag + tag, files(t, {"a.json": "@c0", "in/b.json": "@c1", "in/deep/c.json": "@c2"}),
                        ["merge_mesh", "a.json", "in", dflag, *v, *(outp or [])], t, ("merge", "c0", ["c1"]))
                    add("mergedirs" + dflag + tag, files(t, {"a.json": "@c0", "in/b.json": "@c1"}),
                        ["merge_mesh", dflag, "a.json", "in/", *v, *(outp or [])], t, ("merge", "c0", ["c1"]))
                for fmt in ("JSON", "json", "Json", "GEOJSON", "geojson", "GeoJson"):
                    t = target or EXPORT_DEFAULTS[fmt.upper()]
                    add("export" + fmt + tag, files(t, {"a.json": "@c0"}), ["export_mesh", "a.json", fmt, *v, *(outp or [])], t,
                        ("export", "c0", fmt, None))
    for flag in ("-f", "--format_conf"):
        for name in ("a", "drv"):
            add(f"layer{flag}{name}", {"a.json": "@c0", "layer.cfg": json.dumps({"data_name": name})},
                ["export_mesh", "a.json", "GEOJSON", flag, "layer.cfg", "-o", "g.json"], "g.json", ("export", "c0", "GEOJSON", name))
    bad = {"none": None, "empty": "", "half": '{"config": {"mesh_in', "list": "[]", "blank": "{}"}
    for k, body in bad.items():
        for old in (False, True):
            f = {"out.json": o} if old else {}
            if body is not None:
                f["bad"] = body
            add(f"bad-create-{k}{old}", f, ["create_mesh", "bad", "-o", "out.json"], "out.json", ("error", f"its input is bad ({k})"))
            add(f"bad-rebuild-{k}{old}", f, ["rebuild_mesh", "bad", "-o", "out.json"], "out.json", ("error", f"its input is bad ({k})"))
            add(f"bad-export-{k}{old}", f, ["export_mesh", "bad", "GEOJSON", "-o", "out.json"], "out.json",
                ("error", f"its input is bad ({k})"))
            g = dict(f, **{"a.json": "@c0"})
            add(f"bad-merge1-{k}{old}", g, ["merge_mesh", "bad", "a.json", "-o", "out.json"], "out.json",
                ("error", f"its input is bad ({k})"))
            add(f"bad-merge2-{k}{old}", g, ["merge_mesh", "a.json", "bad", "-o", "out.json"], "out.json",
                ("error", f"its input is bad ({k})"))
    # inputs that are read but cannot be worked with, onto an older output or onto themselves
    for k in ("nodata", "noloader", "nocell"):
        for old in ("new", "old", "self"):
            f = {"out.json": o} if old == "old" else {}
            t = "bad" if old == "self" else "out.json"
            if k != "nocell":
                add(f"late-create-{k}{old}", dict(f, bad="%c0!" + k), ["create_mesh", "bad", "-o", t], t, ("error", f"its sources cannot be read ({k})"))
                add(f"late-rebuild-{k}{old}", dict(f, bad="@c0!" + k), ["rebuild_mesh", "bad", "-o", t], t, ("error", f"its sources cannot be read ({k})"))
                continue
            g = dict(f, **{"a.json": "@c0", "bad": "@c1!" + k})
            add(f"late-export-{k}{old}", g, ["export_mesh", "bad", "GEOJSON", "-o", t], t, ("error", "its input is not a mesh"))
            add(f"late-merge1-{k}{old}", dict(g, bad="@c0!" + k, **{"b.json": "@c1"}), ["merge_mesh", "bad", "b.json", "-o", t], t, ("error", "its input is not a mesh"))
            add(f"late-merge2-{k}{old}", g, ["merge_mesh", "a.json", "bad", "-o", "a.json" if old == "self" else t], "a.json" if old == "self" else t, ("error", "its input is not a mesh"))
    for old in (False, True):
        f = {"a.json": "@c0", "c.json": "@c3", "in/0.json": "@c1", "in/1.json": "@c3", "in/2.json": "@c2"}
        if old:
            f["out.json"] = o
        add(f"outside{old}", f, ["merge_mesh", "a.json", "c.json", "-o", "out.json"], "out.json", ("error", "the mesh does not fit the grid"))
        add(f"outsidedir{old}", f, ["merge_mesh", "a.json", "in", "-d", "-o", "out.json"], "out.json",
            ("error", "a mesh of the directory does not fit the grid"))
        add(f"noargs{old}", f, ["merge_mesh", "a.json", "-o", "out.json"], "out.json", ("error", "an argument is missing"))
    return out


def content(c, v):
    """'@c0' a mesh, '%c0' a configuration, '...!fault' the same with a fault."""
    if not isinstance(v, str) or v[:1] not in ("@", "%"):
        return v
    n, _, fault = v[1:].partition("!")
    doc = copy.deepcopy(lib_create(c[n])[1] if v[0] == "@" else c[n])
    src = (doc["config"]["mesh_info"] if v[0] == "@" else doc)["data_sources"]
    if fault == "nodata":
        src[0]["params"]["files"] = [src[0]["params"]["files"][0] + ".gone"]
    elif fault == "noloader":
        src[0]["loader"] = "no_such_loader"
    elif fault == "nocell":
        doc["cellboxes"][-1]["geometry"] = "POLYGON ((nowhere))"
    return doc


def single_case(ctx, i, separate=False):
    name, files, args, target, want = singles()[i]
    case = {"single": i, "name": name, "separate": separate}
    with ctx.guard(case, "single"):
        c = confs()
        st = {k: content(c, v) for k, v in files.items()}
        if want[0] == "create":
            exp = lib_create(c[want[1]])
        elif want[0] == "merge":
            exp = lib_merge(lib_create(c[want[1]])[1], [lib_create(c[x])[1] for x in want[2]])
        elif want[0] == "export" and want[3] is None:
            exp = lib_export(lib_create(c[want[1]])[1], want[2])
        elif want[0] == "export":
            p = os.path.join(env.scratch(), f"layer_{want[3]}.json")
            with open(p, "w") as f:
                json.dump({"data_name": want[3]}, f)
            exp = lib_export(lib_create(c[want[1]])[1], want[2], p)
        else:
            exp = want
        d = fresh_dir()
        try:
            put(d, st)
            put(d, {k + ".cfg": v for k, v in c.items()})
            before = snapshot(d)
            if separate:
                code = ("import sys; sys.path.insert(0, sys.argv[1]); sys.path.insert(0, sys.argv[2]); "
                        "from mc import env; from mc.props import c18; cmd = sys.argv[3]; sys.argv = sys.argv[3:]; "
                        "sys.exit(c18.entry(cmd)())")
                r = subprocess.run([sys.executable, "-B", "-c", code,
                                    os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__)))), env.REPO, *args],
                                   cwd=d, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=120)
                res = ("ok", r.returncode)
            else:
                res = command(d, *args)
            after = snapshot(d)
        finally:
            shutil.rmtree(d, True)
        ctx.step()
        compare(ctx, case, "single", before, after, target, exp, res, " ".join(args))
        ctx.state(name)
        ctx.trace({"case": case}, outcome=(args[0], exp[0]))


def tasks(tier):
    t = [{"kind": "seq", "start": s, "first": i} for s in STARTS for i in range(len(OPS))]
    t += [{"kind": "listing", "k": k} for k in range(4)]
    n = len(singles())
    t += [{"kind": "single", "lo": lo, "hi": min(n, lo + 20)} for lo in range(0, n, 20)]
    t += [{"kind": "separate", "lo": lo} for lo in range(0, n, 8 if tier == "quick" else 1)]
    return t


def run(task, ctx):
    if task["kind"] == "seq":
        explore(ctx, task["start"], task["first"], 3 if ctx.tier == "quick" else 4)
    elif task["kind"] == "listing":
        for p in itertools.permutations(range(4)):
            if p[0] == task["k"]:
                listing_case(ctx, p)
    elif task["kind"] == "single":
        for i in range(task["lo"], task["hi"]):
            single_case(ctx, i)
    else:
        single_case(ctx, task["lo"], True)


def replay_case(case, ctx):
    if "ops" in case:
        return replay_seq(ctx, case)
    if "listing" in case:
        return listing_case(ctx, case["listing"])
    return single_case(ctx, case["single"], case["separate"])
