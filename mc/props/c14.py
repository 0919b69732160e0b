"""C14: a build is a function of its configuration and data: reproducible, independent of history, rebuildable."""
import copy
import itertools
import json
import os
import pickle
import subprocess
import sys
import traceback

from mc import env
from mc.meshes import region_cfg, config, csv
from mc.props.c08 import doc_same
from mc.sources import grid_file

ID = "C14"
LEVEL = "model_checking"
RULE = ("a state is (history of builds and mesh operations of one process) -> all documents produced; a transition is one "
        "build, rebuild, edit, merge or export on the real code; every history runs in a process of its own, and the oracle "
        "is the document of the same configuration built alone in a fresh interpreter")
ASSUMPTIONS = ["random fields are used with a seed", "relative dates are rebuilt on the same day or from the recorded dates",
               "the configuration handed in may be completed in place by the build"]

REGION = region_cfg(-8, 8, -8, 8, 8, 8)
AMREG = region_cfg(-8, 8, 168, -176, 8, 8)
CONFS = ("table", "amtable", "grid", "vector", "grf", "shapes", "lut", "folder", "samename", "fills", "bare", "today")
EXTRA = ("same", "rebuild", "text", "twice", "edit", "export", "noise", "merge", "inplace", "newdata")
TABLES = ("table", "amtable", "vector", "folder", "samename", "fills")     # configurations whose files may be rewritten


def bounds(tier):
    return (f"{len(CONFS)} configurations (tables, grids, vectors, seeded random fields, shapes, look-up tables, folders, "
            "same-named sources, fillings, relative dates, antimeridian); every sequence of "
            f"{2 if tier == 'quick' else 3} builds; every sequence of a build, 2 operations from {EXTRA} and a further build; "
            f"{4 if tier == 'quick' else 8} hash seeds; every listing order of the folder's files")


# ------------------------------------------------------------------ configurations
def cond(name, t=0.5, lo=0.0, hi=1.0, **kw):
    return {"splitting_conditions": [{name: dict({"threshold": t, "lower_bound": lo, "upper_bound": hi}, **kw)}]}


def grid_rows(am=False):
    vals = [0.0, 1.0, 1.0, 0.25, 0.0, 0.0, 3.0, 0.5]
    longs = [-7.0, -5.0, -3.0, -1.0, 1.0, 3.0, 5.0, 7.0]
    rows = []
    for i, la in enumerate(longs):
        for j, lo in enumerate(longs):
            x = lo
            if am:
                x = lo + 176 if lo + 176 <= 180 else lo - 184
            rows.append((la, x, vals[(3 * i + 5 * j) % 8]))
    return rows


_made = {}


def make(name):
    """A configuration; its data files are written once per worker and shared with the children."""
    if name not in _made:
        _made[name] = make_new(name)
    return copy.deepcopy(_made[name])


def make_new(name):
    d = env.scratch()
    if name in ("table", "amtable"):
        p = csv(grid_rows(name == "amtable"), "lat,long,a")
        return config(AMREG if name == "amtable" else REGION,
                      [{"loader": "scalar_csv", "params": dict({"files": [p], "aggregate_type": "MAX"}, **cond("a"))}], 2, 1)
    if name == "grid":
        lats = [-7.0, -5.0, -3.0, -1.0, 1.0, 3.0, 5.0, 7.0]
        vals = [[v for *_, v in grid_rows()[8 * i:8 * i + 8]] for i in range(8)]
        p = grid_file(lats, lats, vals)
        return config(REGION, [{"loader": "GEBCO", "params": dict({"file": p, "data_name": "elevation"},
                                                                   **cond("elevation", lo=0.1, hi=0.9))}], 2, 3)
    if name == "vector":
        p = csv([(a, b, v, 1 - v) for a, b, v in grid_rows()], "lat,long,u,v")
        return config(REGION, [{"loader": "vector_csv", "params": {
            "files": [p], "data_name": "u,v", "splitting_conditions": [
                {"u,v": {"dmag": {"threshold": 1.0, "lower_bound": 0.0, "upper_bound": 0.5}}}]}}], 1, 1)
    if name == "grf":
        return config(REGION, [
            {"loader": "scalar_grf", "params": dict({"binary": False, "seed": 0, "size": 12, "data_name": "g"}, **cond("g"))},
            {"loader": "binary_grf", "params": {"binary": True, "seed": 0, "size": 9, "data_name": "m", "aggregate_type": "MAX"}},
            {"loader": "vector_grf", "params": {"seed": 0, "size": 10, "data_name": "x,y"}},
            {"loader": "vector_grf", "params": {"seed": 5, "size": 10, "data_name": "x5,y5"}},
            {"loader": "scalar_grf", "params": {"binary": False, "seed": 7, "size": 12, "data_name": "g2"}}], 1, 1)
    if name == "shapes":
        return config(REGION, [
            {"loader": "circle", "params": dict({"data_name": "c", "nx": 7, "ny": 7, "radius": 3.5, "centre": [1, 2]}, **cond("c"))},
            {"loader": "checkerboard", "params": {"data_name": "k", "nx": 5, "ny": 4, "gridsize": [4, 2]}},
            {"loader": "gradient", "params": {"data_name": "s", "nx": 4, "ny": 3}}], 2, 1)
    if name == "lut":
        return config(REGION, [{"loader": "density", "params": {"data_name": "density"}},
                               {"loader": "thickness", "params": {"data_name": "thickness"}}], 0, 1)
    if name == "folder":
        f = os.path.join(d, "folder")
        if not os.path.isdir(f):
            os.mkdir(f)
            for k in range(3):
                with open(os.path.join(f, f"p{(k * 2) % 3}.csv"), "w") as fh:
                    fh.write("lat,long,a\n" + "\n".join(f"{a},{b},{v}" for a, b, v in grid_rows()[k::3]) + "\n")
        return config(REGION, [{"loader": "scalar_csv", "params": dict({"folder": f}, **cond("a"))}], 1, 2)
    if name == "samename":
        p, q = csv(grid_rows()[:40], "lat,long,a"), csv([(a, b, v + 5) for a, b, v in grid_rows()[20:]], "lat,long,a")
        return config(REGION, [{"loader": "scalar_csv", "params": dict({"files": [p], "data_name": "a"}, **cond("a"))},
                               {"loader": "scalar_csv", "params": dict({"files": [q], "data_name": "a", "aggregate_type": "MIN"},
                                                                       **cond("a", 5.5))}], 1, 1)
    if name == "fills":
        p = csv([(1.0, 1.0, 2.0), (3.0, 3.0, 0.0), (-5.0, -5.0, None)], "lat,long,a")
        return config(REGION, [{"loader": "scalar_csv", "params": dict({"files": [p], "data_name": "a", "value_fill_types": "7.5"},
                                                                       **cond("a"))},
                               {"loader": "scalar_csv", "params": {"files": [p], "data_name": "b", "value_fill_types": "Nan"}},
                               {"loader": "scalar_csv", "params": {"files": [p], "data_name": "c", "value_fill_types": "parent"}}], 2, 1)
    if name == "bare":
        return config(REGION, [], 2, 0)
    if name == "today":
        r = dict(REGION, start_time="TODAY - 3", end_time="TODAY+2")
        p = csv(grid_rows(), "lat,long,a")
        return config(r, [{"loader": "scalar_csv", "params": {"files": [p]}}], 0, 1)
    raise ValueError(name)


def table_files(name):
    out = []
    for s in make(name)["data_sources"]:
        p = s["params"]
        out += p["files"] if "files" in p else [os.path.join(p["folder"], f) for f in sorted(os.listdir(p["folder"]))]
    return sorted(set(out))


class NewData:
    """Inside, the files of a configuration hold other data: the same places, the values in reverse order and doubled."""
    def __init__(self, name):
        self.old = {}
        for p in table_files(name):
            with open(p) as f:
                self.old[p] = f.read()

    def __enter__(self):
        for p, text in self.old.items():
            head, *rows = text.splitlines()
            rows = [r.split(",") for r in rows]
            vals = [[str(2 * float(v)) if v else "" for v in r[2:]] for r in rows][::-1]
            with open(p, "w") as f:
                f.write(head + "\n" + "".join(",".join(r[:2] + v) + "\n" for r, v in zip(rows, vals)))

    def __exit__(self, *a):
        for p, text in self.old.items():
            with open(p, "w") as f:
                f.write(text)


# ------------------------------------------------------------------ runs in a process of its own
def isolated(fn):
    """Run fn() in a forked child of this (never building) process; its pickled result."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            try:
                out = ("ok", fn())
            except BaseException as e:  # noqa: the child reports everything
                tb = traceback.extract_tb(e.__traceback__)
                out = ("error", f"{type(e).__name__}: {e} " + "; ".join(f"{os.path.basename(f.filename)}:{f.lineno}" for f in tb[-3:]))
            with os.fdopen(w, "wb") as f:
                pickle.dump(out, f)
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r, "rb") as f:
        raw = f.read()
    os.waitpid(pid, 0)
    if not raw:
        return ("error", "the process died")
    return pickle.loads(raw)


def MB(cfg):
    from meshiphi.mesh_generation.mesh_builder import MeshBuilder
    return MeshBuilder(cfg)


def fresh_docs(hashseed, confs, tag=""):
    """Documents of each configuration, each built alone in a fresh interpreter."""
    e = dict(os.environ, PYTHONHASHSEED=str(hashseed), MC_PINNED="1", TQDM_DISABLE="1")
    code = ("import sys, json, pickle\n"
            f"sys.path.insert(0, {os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))!r})\n"
            "from mc import env\nenv.setup_paths()\n"
            "from mc.props import c14\n"
            "import meshiphi.mesh_generation.mesh_builder\n"
            "cfgs = pickle.load(open(sys.argv[1], 'rb'))\n"
            "out = {k: c14.isolated(lambda: c14.MB(c).build_environmental_mesh().to_json()) for k, c in cfgs.items()}\n"
            "pickle.dump(out, open(sys.argv[1] + '.out', 'wb'))\n")
    p = os.path.join(env.scratch(), f"fresh{hashseed}{tag}.pkl")
    with open(p, "wb") as f:
        pickle.dump({k: make(k) for k in confs}, f)
    subprocess.run([sys.executable, "-B", "-c", code, p], env=e, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL,
                   timeout=300)
    with open(p + ".out", "rb") as f:
        return pickle.load(f)


_ref = {}


def ref(name):
    """Reference document, from a fresh interpreter's child that builds nothing else."""
    if name not in _ref:
        # imported here so that the children need not; the worker itself never builds
        import meshiphi.mesh_generation.mesh_builder  # noqa
        from tqdm import tqdm
        tqdm.get_lock()
        for k in CONFS:
            make(k)
        _ref.update(fresh_docs(12345, CONFS))
        for k in TABLES:
            with NewData(k):
                _ref[k + "+newdata"] = fresh_docs(12345, [k], k)[k]
        for k in list(_ref):
            if _ref[k][0] != "ok":
                raise RuntimeError(f"reference build of {k} failed: {_ref[k][1]}")
    return _ref[name][1]


def other_doc():
    """A small mesh inside REGION's grid, for merging."""
    return config(region_cfg(0, 8, 0, 8, 4, 4), [], 0, 1)


def history(ops):
    """Runs in the child.  Returns [(op, expected configuration or None, document, later document)]."""
    import numpy as np
    from meshiphi.mesh_generation.environment_mesh import EnvironmentMesh
    import meshiphi.mesh_generation.mesh_builder  # noqa
    out = []
    kept = []
    last, cfg, b, m = None, None, None, None
    np.random.seed(99)
    for o in ops:
        if o in CONFS:
            last, cfg = o, make(o)
            b = MB(cfg)
            m = b.build_environmental_mesh()
        elif o == "same":
            b = MB(cfg)
            m = b.build_environmental_mesh()
        elif o == "rebuild":
            cfg = m.to_json()["config"]["mesh_info"]
            b = MB(cfg)
            m = b.build_environmental_mesh()
        elif o == "text":
            cfg = json.loads(json.dumps(m.to_json()))["config"]["mesh_info"]
            b = MB(cfg)
            m = b.build_environmental_mesh()
        elif o == "newdata":
            with NewData(last):
                mm = MB(make(last)).build_environmental_mesh()
                out.append((o, last + "+newdata", copy.deepcopy(mm.to_json())))
            continue
        elif o == "twice":
            m = b.build_environmental_mesh()
        elif o == "noise":
            np.random.seed(4242)
            np.random.rand(17)
            import random
            random.seed(5)
            continue
        elif o == "export":
            m.to_geojson()
            m.to_shapely()
        elif o in ("edit", "merge", "inplace"):
            t = m if o == "inplace" else EnvironmentMesh.load_from_json(m.to_json())
            if o == "merge":
                t.merge_mesh(EnvironmentMesh.load_from_json(MB(other_doc()).build_environmental_mesh().to_json()))
            else:
                t.update_cellbox(0, {"a": 123.0, "extra": [1]})
                if o == "edit":
                    t.split_and_replace(t.agg_cellboxes[1].get_id())
            if o == "inplace":
                # the edited mesh no longer is the build's document; a further build must be unaffected
                kept = [k for k in kept if k[2] is not m]
                b = MB(make(last))
                m = b.build_environmental_mesh()
        doc = copy.deepcopy(m.to_json())
        out.append((o, last, doc))
        kept.append((len(out) - 1, doc, m))
    later = [(i, doc_same(d, mm.to_json())) for i, d, mm in kept]
    return out, later


def difference(a, b, path=""):
    if isinstance(a, dict) and isinstance(b, dict):
        for k in sorted(set(a) | set(b), key=str):
            if k not in a or k not in b:
                return f"{path}/{k} only in {'expected' if k in b else 'result'}"
            d = difference(a[k], b[k], f"{path}/{k}")
            if d:
                return d
        return None
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        if len(a) != len(b):
            return f"{path}: {len(a)} entries, expected {len(b)}"
        for i, (x, y) in enumerate(zip(a, b)):
            d = difference(x, y, f"{path}/{i}")
            if d:
                return d
        return None
    return None if doc_same(a, b) else f"{path}: {a!r:.80}, expected {b!r:.80}"


def seq_case(ctx, ops):
    case = {"ops": list(ops)}
    with ctx.guard(case, "history"):
        ref(CONFS[0])
        st, res = isolated(lambda: history(ops))
        if st != "ok":
            ctx.fail(case, res, "history:error")
            return
        out, later = res
        ctx.step(len(ops))
        for i, (o, name, doc) in enumerate(out):
            d = difference(doc, ref(name))
            if d:
                ctx.fail(case, f"after {list(ops[:i + 1])}: the mesh of {name} differs from its build alone: {d}", "history")
                break
        bad = [i for i, ok in later if not ok]
        if bad:
            ctx.fail(case, f"mesh number {bad[0]} changed through later operations", "independence")
        ctx.state(tuple(ops))
        ctx.trace({"case": case}, outcome=[len(d["cellboxes"]) for *_, d in out])


def order_case(ctx, perm):
    """The folder's files are listed by the operating system in the order `perm`."""
    case = {"listing": list(perm)}
    with ctx.guard(case, "listing"):
        ref("folder")

        def run():
            real_list, real_scan = os.listdir, os.scandir

            def arrange(xs, key):
                if len(xs) != len(perm):
                    return xs
                xs = sorted(xs, key=key)
                return [xs[i] for i in perm]

            class Scan:
                def __init__(self, p="."):
                    with real_scan(p) as it:
                        self.e = arrange(list(it), lambda x: x.name)

                def __iter__(self):
                    return iter(self.e)

                def __enter__(self):
                    return self

                def __exit__(self, *a):
                    return False

                def close(self):
                    pass
            os.listdir = lambda p=".": arrange(real_list(p), str)
            os.scandir = Scan
            return MB(make("folder")).build_environmental_mesh().to_json()
        st, doc = isolated(run)
        ctx.step()
        if st != "ok":
            ctx.fail(case, doc, "listing:error")
            return
        d = difference(doc, ref("folder"))
        if d:
            ctx.fail(case, f"the result depends on the order in which a folder is listed: {d}", "listing")
        ctx.state(case)
        ctx.trace({"case": case})


def hash_case(ctx, seed):
    case = {"hashseed": seed}
    with ctx.guard(case, "hashseed", 400):
        ref(CONFS[0])
        docs = fresh_docs(seed, CONFS)
        for k in CONFS:
            ctx.step()
            if docs[k][0] != "ok":
                ctx.fail(case, f"{k}: {docs[k][1]}", "hashseed:error")
                continue
            d = difference(docs[k][1], ref(k))
            if d:
                ctx.fail(case, f"the mesh of {k} depends on the process' hash seed: {d}", "hashseed")
            ctx.state((seed, k))
            ctx.trace({"case": case})


def sequences(tier):
    n = 2 if tier == "quick" else 3
    out = [s for k in range(1, n + 1) for s in itertools.product(CONFS, repeat=k)]
    mergeable = lambda c, ops: "merge" not in ops or c not in ("amtable",)
    for c in CONFS:
        for k in (1, 2):
            for ops in itertools.product(EXTRA, repeat=k):
                if not mergeable(c, ops) or "newdata" in ops and c not in TABLES:
                    continue
                out.append((c,) + ops)
                nxt = [CONFS[(CONFS.index(c) + 1 + len(out)) % len(CONFS)]] if tier == "quick" else CONFS
                for d in nxt:
                    if k == 2 or tier != "quick":
                        out.append((c,) + ops + (d,))
    return out


def tasks(tier):
    t = [{"kind": "hash", "seed": s} for s in range(4 if tier == "quick" else 8)]
    t += [{"kind": "order", "perm": list(p)} for p in itertools.permutations(range(3))]
    n = len(sequences(tier))
    t += [{"kind": "seq", "lo": lo, "hi": min(n, lo + 60)} for lo in range(0, n, 60)]
    return t


def run(task, ctx):
    if task["kind"] == "hash":
        hash_case(ctx, task["seed"])
    elif task["kind"] == "order":
        order_case(ctx, task["perm"])
    else:
        for s in sequences(ctx.tier)[task["lo"]:task["hi"]]:
            seq_case(ctx, s)
