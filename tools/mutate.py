#!/usr/bin/env python3
"""Mutation survey (development tool; no check uses it).

    mutate.py FILE[,FILE] [--n=40] [--seed=1] [--par=4] [--lines=a-b] [--checks=C01,C02] [--out=log]

Makes small syntactic changes to a module of /repo in scratch copies, drops those the stable tests notice,
and runs the mapped checks (stopping at the first violation) on the rest.  Survivors are printed for review.
"""
import ast
import json
import os
import random
import re
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
SCR = "/tmp/mut"
MAP = [
    ("mesh_generation/mesh_builder.py", "C02,C01,C03,C19,C12,C04,C14"),
    ("mesh_generation/neighbour_graph.py", "C02,C10,C08,C07"),
    ("mesh_generation/cellbox.py", "C03,C04,C02,C19"),
    ("mesh_generation/boundary.py", "C10,C12,C01"),
    ("mesh_generation/environment_mesh.py", "C09,C13,C11,C07,C08,C18"),
    ("mesh_generation/aggregated_cellbox.py", "C09,C11,C13,C07"),
    ("mesh_generation/mesh.py", "C01,C09"),
    ("mesh_generation/metadata.py", "C04,C19"),
    ("meshiphi/utils.py", "C25,C10,C13,C18,C20"),
    ("mesh_validation/", "C23"), ("mesh_plotting/", "C24"),
    ("scalar/abstract_scalar.py", "C05,C06,C04,C21,C20,C16"),
    ("vector/abstract_vector.py", "C15,C25,C21,C05,C20,C16"),
    ("lut/", "C17,C20"),
    ("shape.py", "C22"), ("_grf.py", "C22,C14"),
    ("_csv.py", "C20,C04,C15"),
    ("dataloaders/scalar/", "C16,C20"), ("dataloaders/vector/", "C16,C20"),
    ("factory.py", "C20,C19"), ("cli.py", "C18"), ("config_validation", "C12"),
]
SWAP = [("north", "south"), ("east", "west"), ("lat", "long"), ("lat", "lon"), ("min", "max"), ("width", "height"),
        ("rows", "columns"), ("x", "y"), ("u", "v"), ("start", "end"), ("lower", "upper")]


def swapped(name):
    out = []
    parts = re.split(r"([_,\. ])", name)
    for a, b in SWAP:
        q = [b if p == a else a if p == b else p for p in parts]
        if q != parts:
            out.append("".join(q))
    return out


class M(ast.NodeVisitor):
    def __init__(self, src):
        self.src = src
        self.off = [0]
        for l in src.split("\n"):
            self.off.append(self.off[-1] + len(l.encode()) + 1)
        self.b = src.encode()
        self.out = []
        self.skip = 0

    def seg(self, n):
        return self.off[n.lineno - 1] + n.col_offset, self.off[n.end_lineno - 1] + n.end_col_offset

    def text(self, n):
        a, e = self.seg(n)
        return self.b[a:e].decode()

    def put(self, n, new, kind):
        a, e = self.seg(n)
        self.out.append((n.lineno, a, e, new, kind))

    def visit_Compare(self, n):
        if len(n.ops) == 1:
            l, r = self.text(n.left), self.text(n.comparators[0])
            for op in {ast.Lt: ["<=", ">"], ast.LtE: ["<", ">="], ast.Gt: [">=", "<"], ast.GtE: [">", "<="], ast.Eq: ["!="],
                       ast.NotEq: ["=="], ast.Is: ["is not"], ast.IsNot: ["is"], ast.In: ["not in"],
                       ast.NotIn: ["in"]}[type(n.ops[0])]:
                self.put(n, f"{l} {op} {r}", "cmp")
        self.generic_visit(n)

    def visit_BoolOp(self, n):
        op = " or " if isinstance(n.op, ast.And) else " and "
        self.put(n, "(" + op.join("(" + self.text(v) + ")" for v in n.values) + ")", "bool")
        for i in range(len(n.values)):
            o2 = " and " if isinstance(n.op, ast.And) else " or "
            self.put(n, "(" + o2.join("(" + self.text(v) + ")" for j, v in enumerate(n.values) if j != i) + ")", "drop")
        self.generic_visit(n)

    def visit_BinOp(self, n):
        for op in {ast.Add: ["-"], ast.Sub: ["+"], ast.Mult: ["/"], ast.Div: ["*"], ast.Mod: [], ast.BitAnd: ["|"],
                   ast.BitOr: ["&"], ast.FloorDiv: ["/"]}.get(type(n.op), []):
            self.put(n, f"{self.text(n.left)} {op} {self.text(n.right)}", "bin")
        if not isinstance(n.op, ast.Mod):
            self.put(n, f"({self.text(n.left)})", "left")
        self.generic_visit(n)

    def visit_UnaryOp(self, n):
        self.put(n, f"({self.text(n.operand)})", "un")
        self.generic_visit(n)

    def visit_If(self, n):
        self.put(n.test, f"(not ({self.text(n.test)}))", "neg")
        if not n.orelse:
            self.put(n.test, "True", "true")
        self.generic_visit(n)

    def visit_Constant(self, n):
        v = n.value
        if isinstance(v, bool):
            self.put(n, str(not v), "const")
        elif isinstance(v, (int, float)):
            self.put(n, repr(v + 1), "const")
            if v:
                self.put(n, "0" if abs(v) > 1 else repr(-v), "const")
        elif isinstance(v, str) and len(v) < 40:
            for s in swapped(v):
                self.put(n, repr(s), "str")

    def visit_JoinedStr(self, n):
        pass

    def visit_Attribute(self, n):
        for s in swapped(n.attr):
            self.put(n, f"{self.text(n.value)}.{s}", "attr")
        self.generic_visit(n)

    def visit_Name(self, n):
        if isinstance(n.ctx, ast.Load):
            for s in swapped(n.id):
                if re.search(r"\b%s\b" % re.escape(s), self.src):
                    self.put(n, s, "name")

    def visit_Expr(self, n):
        if isinstance(n.value, ast.Constant):
            return
        t = self.text(n)
        if t.startswith(("logging", "print", "warn", "tqdm", "self.logger")) or ".set_postfix" in t or "pbar" in t:
            return
        self.put(n, "pass", "del")
        self.generic_visit(n)

    def visit_Assign(self, n):
        if len(n.targets) == 1 and isinstance(n.targets[0], (ast.Attribute, ast.Subscript)):
            self.put(n, "pass", "del")
        elif "pbar" in self.text(n.targets[0]):
            return
        self.generic_visit(n)

    def visit_AugAssign(self, n):
        self.put(n, "pass", "del")
        self.generic_visit(n)

    def visit_Call(self, n):
        t = self.text(n)
        if t.startswith(("logging", "tqdm", "argparse", "parser.add", "print")):
            return
        if len(n.args) >= 2 and not any(isinstance(a, ast.Starred) for a in n.args):
            a, _ = self.seg(n.args[0])
            _, e = self.seg(n.args[1])
            mid = self.b[self.seg(n.args[0])[1]:self.seg(n.args[1])[0]].decode()
            self.out.append((n.lineno, a, e, self.text(n.args[1]) + mid + self.text(n.args[0]), "args"))
        for k in n.keywords:
            if k.arg:
                a = self.off[k.lineno - 1] + k.col_offset
                e = self.off[k.end_lineno - 1] + k.end_col_offset
                tail = re.match(rb"\s*,", self.b[e:])
                if tail:
                    self.out.append((k.lineno, a, e + tail.end(), "", "kw"))
        if isinstance(n.func, ast.Attribute) and n.func.attr in ("copy", "sort", "sort_values", "dropna", "reset_index", "strip", "lower",
                                                            "upper", "deepcopy"):
            self.put(n, self.text(n.func.value) if n.func.attr != "deepcopy" else self.text(n.args[0]), "nocall")
        self.generic_visit(n)

    def visit_Raise(self, n):
        self.put(n, "pass", "del")

    def visit_Assert(self, n):
        self.put(n, "pass", "del")

    def visit_Return(self, n):
        if n.value is not None:
            self.generic_visit(n)

    def visit_FunctionDef(self, n):
        if n.name in ("to_png", "to_tif", "__str__", "__repr__", "plot", "to_java", "print_cellbox"):
            return
        for s in n.body:
            self.visit(s)
        for d in n.args.defaults:
            self.visit(d)

    def visit_Import(self, n):
        pass

    visit_ImportFrom = visit_Import


def mutants(path):
    src = open(path).read()
    m = M(src)
    m.visit(ast.parse(src))
    out, seen = [], set()
    for ln, a, e, new, kind in m.out:
        s = (m.b[:a] + new.encode() + m.b[e:]).decode()
        if s in seen or s == src:
            continue
        try:
            compile(s, "x", "exec")
        except Exception:
            continue
        seen.add(s)
        out.append((ln, kind, m.b[a:e].decode(), new, s))
    return out


PLUG = '''
import json
S = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
def pytest_collection_modifyitems(config, items):
    keep = []
    for i in items:
        p = i.nodeid.split("::")
        k = p[0][:-3].replace("/", ".") + "".join("." + q for q in p[1:-1]) + "::" + p[-1]
        if k in S or (p[0][:-3].replace("/", ".") + "::" + "::".join(p[1:])) in S:
            keep.append(i)
    items[:] = keep
'''
FIRST = '''
import os, sys
sys.path.insert(0, {root!r})
from mc import env
from concurrent.futures import ProcessPoolExecutor, as_completed
import multiprocessing as mp
if __name__ == "__main__":
    pid, jobs = sys.argv[1], int(sys.argv[2])
    env.reexec_if_needed([os.path.abspath(__file__)] + sys.argv[1:])
    from mc import core
    os.environ["MC_SCRATCH_BASE"] = env.scratch(); os.environ["MPLCONFIGDIR"] = env.scratch()
    env.setup_paths()
    try:
        mod = core.load_prop(pid); tasks = mod.tasks("quick")
    except BaseException as e:
        print("FAIL import", repr(e)); sys.stdout.flush(); os._exit(1)
    import random
    order = list(range(len(tasks))); random.Random(5).shuffle(order)
    ex = ProcessPoolExecutor(max_workers=jobs, mp_context=mp.get_context("spawn"), initializer=core._worker_init, initargs=(pid,))
    futs = [ex.submit(core._worker_run, (i, tasks[i], "quick")) for i in order]
    rc = 0
    try:
        for f in as_completed(futs):
            r = f.result()
            if r["fails"]:
                rc = 1; print("FAIL", r["fails"][0]["key"], r["fails"][0]["msg"][:150].replace(chr(10), " ")); break
    except BaseException as e:
        rc = 1; print("FAIL died", repr(e)[:100])
    sys.stdout.flush()
    for p in list((ex._processes or {{}}).values()):
        p.kill()
    import shutil; shutil.rmtree(env.scratch(), ignore_errors=True)
    os._exit(rc)
'''


def sh(cmd, env=None, timeout=1500):
    p = subprocess.Popen(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=env,
                         start_new_session=True)
    try:
        o, _ = p.communicate(timeout=timeout)
        return p.returncode, o
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        p.communicate()
        return 124, "timeout"


def one(k, rel, mut, checks, jobs):
    ln, kind, old, new, s = mut
    d = f"{SCR}/{k}"
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    sh(f"cd /repo && cp -a meshiphi tests pyproject.toml {d}/")
    open(f"{d}/{rel}", "w").write(s)
    e = dict(os.environ, PYTHONPATH=f"{d}:{SCR}", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", MPLBACKEND="Agg",
             OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", TMPDIR=d, TQDM_DISABLE="1")
    res = None
    try:
        for name, extra in (("unit_tests", "--ignore=test_mesh_validator.py"), ("regression_tests", f"-n {jobs}")):
            rc, o = sh(f"cd {d}/tests/{name} && {PY} -m pytest -q -x -p no:cacheprovider -p mutplug --rootdir={d} "
                       f"--timeout=200 {extra} .", env=e)
            if rc:
                res = "tests"
                break
        if res is None:
            e2 = dict(os.environ, MC_REPO=d)
            for c in checks:
                rc, o = sh(f"cd {ROOT} && {PY} {SCR}/first.py {c} {jobs}", env=e2)
                if rc:
                    res = f"{c}: {o.strip()[-160:]}"
                    break
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return k, ln, kind, old, new, res


def main():
    opt = dict(a[2:].split("=", 1) for a in sys.argv[1:] if a.startswith("--"))
    files = [a for a in sys.argv[1:] if not a.startswith("--")][0].split(",")
    os.makedirs(SCR, exist_ok=True)
    open(f"{SCR}/mutplug.py", "w").write(PLUG)
    open(f"{SCR}/first.py", "w").write(FIRST.format(root=ROOT))
    jobs = int(opt.get("jobs", 2))
    work = []
    for rel in files:
        ms = mutants(f"/repo/{rel}")
        if "lines" in opt:
            a, b = map(int, opt["lines"].split("-"))
            ms = [m for m in ms if a <= m[0] <= b]
        random.Random(int(opt.get("seed", 1))).shuffle(ms)
        checks = opt["checks"].split(",") if "checks" in opt else next(c for p, c in MAP if p in rel).split(",")
        tot = len(ms)
        ms = ms[:int(opt.get("n", 40))]
        print(f"{rel}: {len(ms)} of {tot} mutants", flush=True)
        work += [(rel, m, checks) for m in ms]
    if "dry" in opt:
        for r, m, c in work:
            print(r, m[0], m[1], m[2][:50].replace("\n", " "), "=>", m[3][:50].replace("\n", " "))
        return
    st = {"tests": 0, "caught": 0, "survived": 0}
    tag = opt.get("tag", str(os.getpid()))
    with ThreadPoolExecutor(int(opt.get("par", 4))) as ex:
        for (rel, m, c), r in zip(work, ex.map(lambda t: one(f"{tag}_{t[0]}", *t[1], jobs), enumerate(work))):
            _, ln, kind, old, new, res = r
            what = "tests" if res == "tests" else "survived" if res is None else "caught"
            st[what] += 1
            if what != "tests":
                print(f"{what.upper():8} {os.path.basename(rel)}:{ln} {kind}: {old[:90]!r} => {new[:90]!r}   {res or ''}", flush=True)
    print(st)


main()
