#!/usr/bin/env python3
"""Confirm planted bugs in scratch copies (development tool; no check uses it).

    plant.py DEFS.py [ID ...] [--checks C01,C02] [--no-tests] [--no-check]

DEFS.py: BUGS = {id: dict(property, edits=[(file, old, new), ...], demo, needs, breaks)}.
Writes /verif/seeded/<id>/ once the change applies, the stable tests pass with it and the
demonstration separates the two trees; then runs the property's quick check on the copy.
"""
import json
import os
import shutil
import subprocess
import sys
import xml.etree.ElementTree as ET
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SCR = "/tmp/plant"
PY = "/opt/venv/bin/python"
DEMO_SH = '''#!/bin/bash
d=$(cd "$(dirname "$0")" && pwd)
export PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg TQDM_DISABLE=1
w=$(mktemp -d); trap 'rm -rf "$w"' EXIT
export MPLCONFIGDIR="$w"
exec 3>&1
DEMO_TMP="$w" /opt/venv/bin/python -W ignore "$d/demo.py"
'''


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)


def stable():
    b = json.load(open("/opt/vp/BASELINE.json"))
    for k in ("stable", "pass", "passed", "tests"):
        if k in b:
            return b[k]
    return b


def tests(copy):
    out = {}
    envs = dict(os.environ, PYTHONPATH=copy, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", MPLBACKEND="Agg",
                OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1")
    failed = []
    n = 0
    for name, extra in (("unit_tests", "--ignore=test_mesh_validator.py"), ("regression_tests", "-n 2")):
        x = f"{copy}/{name}.xml"
        sh(f"cd {copy}/tests/{name} && {PY} -m pytest -q -p no:cacheprovider --rootdir={copy} --timeout=300 "
           f"--junitxml={x} {extra} .", env=envs)
        for tc in ET.parse(x).iter("testcase"):
            n += 1
            if any(c.tag in ("failure", "error") for c in tc):
                failed.append(tc.get("classname") + "::" + tc.get("name"))
    return n, failed


def one(bid, bug, opts):
    copy = f"{SCR}/{bid}"
    shutil.rmtree(copy, ignore_errors=True)
    sh(f"cp -a /repo {copy}")
    log = []
    for f, old, new in bug["edits"]:
        p = f"{copy}/{f}"
        s = open(p).read()
        if s.count(old) != 1:
            return bid, False, [f"EDIT matches {s.count(old)} times in {f}: {old[:60]!r}"]
        open(p, "w").write(s.replace(old, new))
    diff = sh(f"git -C {copy} diff").stdout
    d = f"{SCR}/{bid}.seed"
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    open(f"{d}/patch.diff", "w").write(diff)
    open(f"{d}/demo.sh", "w").write(DEMO_SH)
    open(f"{d}/demo.py", "w").write(bug["demo"].lstrip("\n"))
    os.chmod(f"{d}/demo.sh", 0o755)
    json.dump({"property": bug["property"], "needs": bug["needs"], "what_it_breaks": bug["breaks"]},
              open(f"{d}/meta.json", "w"), indent=1)
    a = sh(f"cd /repo && bash {d}/demo.sh")
    b = sh(f"cd {copy} && bash {d}/demo.sh")
    ok = a.returncode == 0 and b.returncode != 0
    log.append(f"demo clean={a.returncode} patched={b.returncode}: {(b.stderr or b.stdout).strip()[-160:]}")
    if a.returncode:
        log.append(a.stderr[-400:])
    if "--no-tests" not in opts:
        n, failed = tests(copy)
        base = set(BASEFAIL)
        bad = [f for f in failed if f in STABLE]
        log.append(f"tests {n} run, new failures: {bad[:4]}")
        ok = ok and not bad and n > 150
    if ok:
        dst = f"{ROOT}/seeded/{bid}"
        shutil.rmtree(dst, ignore_errors=True)
        shutil.copytree(d, dst)
    return bid, ok, log


def check(bid, pid):
    e = dict(os.environ, MC_REPO=f"{SCR}/{bid}")
    r = sh(f"cd {ROOT} && {PY} check.py {pid} --tier quick", env=e)
    v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
    m = [l for l in r.stdout.splitlines() if l.startswith("  [")]
    return r.returncode, v, m[:1]


def main():
    a = sys.argv[1:]
    opts = [x for x in a if x.startswith("--")]
    rest = [x for x in a if not x.startswith("--")]
    checks = None
    for o in opts:
        if o.startswith("--checks="):
            checks = o[9:].split(",")
    ns = {}
    exec(open(rest[0]).read(), ns)
    ids = rest[1:] or list(ns["BUGS"])
    os.makedirs(SCR, exist_ok=True)
    with ThreadPoolExecutor(3) as ex:
        res = list(ex.map(lambda i: one(i, ns["BUGS"][i], opts), ids))
    for bid, ok, log in res:
        print(("OK   " if ok else "BAD  ") + bid)
        for l in log:
            print("     ", l)
        if ok and "--no-check" not in opts:
            for pid in (checks or [ns["BUGS"][bid]["property"]]):
                rc, v, m = check(bid, pid)
                print(f"      check {pid}: rc={rc} {'CAUGHT' if rc == 1 and v else 'MISSED'} {m[0][:200] if m else ''}")
        sys.stdout.flush()
        shutil.rmtree(f"{SCR}/{bid}", ignore_errors=True)
        shutil.rmtree(f"{SCR}/{bid}.seed", ignore_errors=True)


STABLE = set(stable())
BASEFAIL = []
if os.path.exists("/tmp/basefail.json"):
    BASEFAIL = json.load(open("/tmp/basefail.json"))
if __name__ == "__main__":
    if sys.argv[1] == "--base":
        shutil.rmtree(SCR, ignore_errors=True)
        os.makedirs(SCR)
        sh(f"cp -a /repo {SCR}/base")
        n, f = tests(f"{SCR}/base")
        json.dump(f, open("/tmp/basefail.json", "w"))
        print(n, f)
        shutil.rmtree(f"{SCR}/base", ignore_errors=True)
    else:
        main()
