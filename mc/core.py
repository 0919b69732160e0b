"""Explorer core: exhaustive, sharded, measured.

A check module (mc/props/<id>.py) provides

    ID, LEVEL, RULE, ASSUMPTIONS
    tasks(tier)        -> list of JSON-able task descriptions (a partition of the
                          bounded space; the whole list is always executed)
    run(task, ctx)     -> explores the task's part of the space on the real code

Inside run(), `ctx` counts what happened:

    ctx.state(key)     canonical state / observation reached (deduplicated)
    ctx.step(n=1)      a transition executed on the implementation
    ctx.trace(sample)  a complete history replayed on the implementation and
                       compared with the reference model
    ctx.fail(case,msg,key)  property violated in `case`

Cases are JSON-able and small; `check.py <ID> --replay file` re-runs exactly the
recorded case.
"""
import contextlib
import hashlib
import json
import os
import signal
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MAX_FAILS_PER_TASK = 5


class OpTimeout(BaseException):
    pass


@contextlib.contextmanager
def watchdog(seconds, what="operation"):
    """Termination monitor: one call into the code under test that normally takes
    milliseconds is given `seconds`; exceeding it is reported as non-termination."""
    def onalarm(_s, _f):
        raise OpTimeout(f"{what} did not finish within {seconds} s")
    old = signal.signal(signal.SIGALRM, onalarm)
    signal.setitimer(signal.ITIMER_REAL, seconds)
    try:
        yield
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


def digest(obj):
    s = obj if isinstance(obj, (str, bytes)) else json.dumps(obj, sort_keys=True, default=str)
    if isinstance(s, str):
        s = s.encode()
    return hashlib.blake2b(s, digest_size=10).digest()


class Ctx:
    def __init__(self, tier="quick", only=None):
        self.tier = tier
        self.only = only            # replay: run only this case
        self.states = set()
        self.transitions = 0
        self.traces = 0
        self.outcomes = set()
        self.samples = []
        self.fails = []
        self.nfails = 0
        self.counts = {}

    def state(self, key):
        d = digest(key)
        if d in self.states:
            return False
        self.states.add(d)
        return True

    def step(self, n=1):
        self.transitions += n

    def trace(self, sample=None, outcome=None):
        self.traces += 1
        if outcome is not None:
            self.outcomes.add(digest(outcome))
        if sample is not None and len(self.samples) < 2:
            self.samples.append(sample)

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def fail(self, case, msg, key=None):
        self.nfails += 1
        if len(self.fails) < MAX_FAILS_PER_TASK:
            self.fails.append({"case": case, "msg": str(msg)[:2000], "key": key or "unspecified"})

    @contextlib.contextmanager
    def guard(self, case, key="unexpected-exception", timeout=120):
        """Run code under test; an unexpected exception or hang is a violation."""
        try:
            with watchdog(timeout):
                yield
        except OpTimeout as e:
            self.fail(case, f"non-termination: {e}", key + ":hang")
        except Exception as e:
            tb = traceback.extract_tb(e.__traceback__)
            where = "; ".join(f"{os.path.basename(f.filename)}:{f.lineno}:{f.name}" for f in tb[-4:])
            self.fail(case, f"{type(e).__name__}: {e} [{where}]", f"{key}:{type(e).__name__}")

    def result(self):
        return {
            "states": self.states, "transitions": self.transitions, "traces": self.traces,
            "outcomes": self.outcomes, "samples": self.samples, "fails": self.fails,
            "nfails": self.nfails, "counts": self.counts,
        }


def load_prop(pid):
    import importlib
    return importlib.import_module(f"mc.props.{pid.lower()}")


_MOD = None


def _worker_init(pid):
    global _MOD
    from mc import env
    env.quiet_fds()
    env.setup_paths()
    os.environ["MPLCONFIGDIR"] = env.scratch()
    os.chdir(env.scratch())
    _MOD = load_prop(pid)


def _worker_run(arg):
    idx, task, tier = arg
    ctx = Ctx(tier)
    t = time.time()
    try:
        _MOD.run(task, ctx)
    except OpTimeout as e:
        ctx.fail({"task": task}, f"non-termination: {e}", "task:hang")
    except Exception as e:
        ctx.fail({"task": task}, "".join(traceback.format_exception(e))[-1800:],
                 f"task:{type(e).__name__}")
    r = ctx.result()
    r["idx"] = idx
    r["wall"] = time.time() - t
    return r


def known_findings(pid):
    path = os.path.join(VERIF, "KNOWN_FINDINGS.jsonl")
    out = []
    if os.path.exists(path):
        with open(path) as f:
            for line in f:
                line = line.strip()
                if line and not line.startswith("#"):
                    d = json.loads(line)
                    if d.get("status") == "known" and d.get("property") == pid:
                        out.append(d)
    return out


def match_known(fail, known):
    """A failure is a listed finding only if both its key and its exact case match."""
    for k in known:
        if k["key"] == fail["key"] and any(digest(c) == digest(fail["case"]) for c in k["cases"]):
            return k
    return None


def run_check(pid, tier, jobs=8):
    from concurrent.futures import ProcessPoolExecutor, as_completed
    from concurrent.futures.process import BrokenProcessPool
    import multiprocessing as mp
    t0 = time.time()
    mod = load_prop(pid)
    tasks = mod.tasks(tier)
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    # The seed only rotates the execution order; the explored space is the same.
    order = list(range(len(tasks)))
    if order:
        r = seed % len(order)
        order = order[r:] + order[:r]
    tot = {"states": set(), "transitions": 0, "traces": 0, "outcomes": set(), "counts": {}, "nfails": 0}
    samples, fails = {}, []
    broken = []
    done = set()
    mpctx = mp.get_context("spawn")
    with ProcessPoolExecutor(max_workers=jobs, mp_context=mpctx,
                             initializer=_worker_init, initargs=(pid,)) as ex:
        futs = {ex.submit(_worker_run, (i, tasks[i], tier)): i for i in order}
        for f in as_completed(futs):
            i = futs[f]
            try:
                r = f.result()
            except (BrokenProcessPool, Exception) as e:   # worker died
                broken.append((i, repr(e)))
                continue
            done.add(i)
            tot["states"] |= r["states"]
            tot["outcomes"] |= r["outcomes"]
            tot["transitions"] += r["transitions"]
            tot["traces"] += r["traces"]
            tot["nfails"] += r["nfails"]
            for k, v in r["counts"].items():
                tot["counts"][k] = tot["counts"].get(k, 0) + v
            for s in r["samples"]:
                samples.setdefault(i, []).append(s)
            for fl in r["fails"]:
                fl["task"] = tasks[i]
                fl["idx"] = i
                fails.append(fl)
    if broken:
        # Re-run the unfinished tasks one process each, so that only a task that
        # kills its own process is blamed.
        for i, _ in broken:
            with ProcessPoolExecutor(max_workers=1, mp_context=mpctx,
                                     initializer=_worker_init, initargs=(pid,)) as ex:
                try:
                    r = ex.submit(_worker_run, (i, tasks[i], tier)).result()
                except Exception as e:
                    fails.append({"case": {"task": tasks[i]}, "msg": f"process died: {e!r}",
                                  "key": "crash", "task": tasks[i], "idx": i})
                    tot["nfails"] += 1
                    continue
            done.add(i)
            tot["states"] |= r["states"]
            tot["outcomes"] |= r["outcomes"]
            tot["transitions"] += r["transitions"]
            tot["traces"] += r["traces"]
            tot["nfails"] += r["nfails"]
            for fl in r["fails"]:
                fl["task"] = tasks[i]
                fl["idx"] = i
                fails.append(fl)
    fails.sort(key=lambda f: (f["idx"],))
    known = known_findings(pid)
    new, seen_known = [], {}
    for f in fails:
        k = match_known(f, known)
        if k is None:
            new.append(f)
        else:
            seen_known[k["what"]] = k
    wall = time.time() - t0
    sample_list = []
    for i in sorted(samples):
        for s in samples[i]:
            if len(sample_list) < 6:
                sample_list.append(s)
    cov = {
        "states": len(tot["states"]),
        "transitions": tot["transitions"],
        "traces_validated_against_impl": tot["traces"],
        "distinct_outcomes": len(tot["outcomes"]),
        "tasks_total": len(tasks),
        "tasks_completed": len(done),
        "exhaustive": len(done) == len(tasks),
        "rule": mod.RULE,
        "bounds": mod.bounds(tier) if hasattr(mod, "bounds") else "",
        "samples": sample_list,
    }
    cov.update({f"n_{k}": v for k, v in sorted(tot["counts"].items())})
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": mod.LEVEL,
        "coverage": cov, "wall_s": round(wall, 2),
        "assumptions": list(mod.ASSUMPTIONS),
        "violations": len(new),
    }
    evdir = os.path.join(VERIF, "evidence")
    os.makedirs(evdir, exist_ok=True)
    tmp = os.path.join(evdir, f".{pid}.tmp")
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1, default=str)
    os.replace(tmp, os.path.join(evdir, f"{pid}.json"))
    for k in seen_known.values():
        print(f"KNOWN-FINDING: property={pid} {k['what']}")
    print(f"{pid} {tier}: states={cov['states']} transitions={cov['transitions']} "
          f"traces={cov['traces_validated_against_impl']} outcomes={cov['distinct_outcomes']} "
          f"tasks={len(done)}/{len(tasks)} wall={wall:.1f}s")
    if new:
        rdir = os.path.join(VERIF, "replays")
        os.makedirs(rdir, exist_ok=True)
        shown = {}
        for f in new:
            shown.setdefault(f["key"], f)
        for n, f in enumerate(list(shown.values())[:5]):
            path = os.path.join(rdir, f"{pid}-{n}.json")
            with open(path, "w") as fh:
                json.dump({"property": pid, "tier": tier, "task": f["task"], "case": f["case"],
                           "msg": f["msg"], "key": f["key"]}, fh, indent=1, default=str)
            print(f"  [{f['key']}] {f['msg'][:600]}")
            print(f"  case: {json.dumps(f['case'], default=str)[:600]}")
            print(f"VIOLATION property={pid} replay={path}")
        print(f"{tot['nfails']} failing cases in total")
        return 1
    return 0


def replay(pid, path):
    """Re-run the recorded task and report whether the recorded case still fails."""
    from mc import env
    env.setup_paths()
    with open(path) as f:
        rec = json.load(f)
    os.environ["MPLCONFIGDIR"] = env.scratch()
    os.chdir(env.scratch())
    mod = load_prop(pid)
    runs = []
    for _ in range(2):
        ctx = Ctx(rec.get("tier", "quick"))
        if hasattr(mod, "replay_case"):
            mod.replay_case(rec["case"], ctx)
        else:
            mod.run(rec["task"], ctx)
        runs.append([(f["case"], f["msg"], f["key"]) for f in ctx.fails])
    same = json.dumps(runs[0], default=str) == json.dumps(runs[1], default=str)
    print(f"replay deterministic: {same}; failures: {len(runs[0])}")
    for c, m, k in runs[0][:5]:
        print(f"  [{k}] {m}\n  case: {json.dumps(c, default=str)[:800]}")
    if runs[0]:
        print(f"VIOLATION property={pid} replay={path}")
        return 1
    return 0
