"""C06: the homogeneity verdict on a cell depends on the data inside it exactly as documented."""
import itertools

from mc.meshes import region_cfg
from mc.sources import table, grid

ID = "C06"
LEVEL = "model_checking"
RULE = ("a state is (multiset of datapoint classes, rule, minimum datapoints) -> verdict; a transition is one "
        "classification by the real loader; the oracle is the documented rule")
ASSUMPTIONS = ["cases in which only missing values decide whether the minimum number of datapoints is reached are "
               "left out (the documentation does not say whether they count)",
               "0 <= lower_bound <= upper_bound <= 1"]
BOUNDS = [0.0, 0.25, 1 / 3, 0.5, 0.75, 1.0]
# bounds rectangle and positions inside / outside it
WHERE = {
    "plain": ((0.0, 8.0), (-4.0, 4.0)),
    "south": ((-70.0, -60.0), (-100.0, -90.0)),
    "am": ((0.0, 8.0), (176.0, -176.0)),
}


def bounds(tier):
    n = 5 if tier == "quick" else 7
    return (f"all multisets of <= {n} datapoints over (below, equal to, above threshold, missing), thresholds "
            "-1, 0, 10, minimum datapoints 1..6, all bound pairs from (0, 1/4, 1/3, 1/2, 3/4, 1), lock absent/"
            "true/false, table and gridded data, plain / southern / antimeridian cells, with datapoints outside the cell present")


def multisets(n):
    for tot in range(n + 1):
        for a in range(tot + 1):
            for b in range(tot - a + 1):
                for c in range(tot - a - b + 1):
                    yield (a, b, c, tot - a - b - c)


def tasks(tier):
    n = 5 if tier == "quick" else 7
    ms = list(multisets(n))
    t = []
    for kind in ("table", "grid"):
        for w in WHERE:
            step = 12
            for i in range(0, len(ms), step):
                t.append({"kind": kind, "where": w, "n": n, "lo": i, "hi": min(len(ms), i + step)})
    return t


def positions(w, n):
    """n positions strictly inside the cell on one row, and two outside."""
    (la, lb), (oa, ob) = WHERE[w]
    width = (ob - oa) % 360
    out = []
    for i in range(n):
        x = oa + width * (2 * i + 1) / 32
        out.append((la + (lb - la) / 2, x - 360 if x > 180 else x))
    return out


def outside(w):
    (la, lb), (oa, ob) = WHERE[w]
    return [(la - 1.0, oa + 1.0), (la + 1.0, oa - 1.0), (lb + 1.0, oa + 1.0)]


def make(kind, w, ms, thr, min_dp):
    from meshiphi.dataloaders.factory import DataLoaderFactory
    from meshiphi.mesh_generation.boundary import Boundary
    (la, lb), (oa, ob) = WHERE[w]
    vals = [thr - 1.0] * ms[0] + [thr] * ms[1] + [thr + 1.0] * ms[2] + [None] * ms[3]
    pos = positions(w, len(vals))
    b = Boundary([la, lb], [oa, ob], ["2020-01-01", "2020-01-31"])
    big = Boundary([la - 2, lb + 2], [oa - 2, ob + 2], ["2020-01-01", "2020-01-31"])
    out = [(p[0], p[1], thr + 1.0) for p in outside(w)]
    if kind == "table":
        s = table("v", [(p[0], p[1], v) for p, v in zip(pos, vals)] + out)
    else:
        row = la + (lb - la) / 2
        longs = sorted([p[1] for p in pos] + [oa - 1.0])
        val = {p[1]: v for p, v in zip(pos, vals)}
        val[oa - 1.0] = thr + 1.0
        lats = [la - 1.0, row, lb + 1.0]
        v = [[thr + 1.0] * len(longs), [val[x] for x in longs], [thr + 1.0] * len(longs)]
        s = grid("v", lats, longs, v)
    return DataLoaderFactory.get_dataloader(s["loader"], big, dict(s["params"]), min_dp), b


def want(ms, rule, min_dp):
    below, eq, above, nan = ms
    n, present = sum(ms), below + eq + above
    if n < min_dp:
        return {"CLR"}
    if present < min_dp:
        return None
    frac = above / present if present else 0
    if frac <= rule["lower_bound"]:
        return {"CLR"}
    if frac >= rule["upper_bound"]:
        return {"HOM"} if rule.get("split_lock") else {"CLR"}
    return {"HET"}


def one(ctx, case):
    ms, thr, min_dp = tuple(case["ms"]), case["threshold"], case["min_dp"]
    with ctx.guard(case, "classify"):
        loader, b = make(case["kind"], case["where"], ms, thr, min_dp)
        pre = loader.trim_datapoints(b)
        rules = [case["rule"]] if "rule" in case else all_rules(thr)
        for rule in rules:
            for mode in ("whole", "subset"):
                r = dict(rule)
                got = loader.get_hom_condition(b, r) if mode == "whole" else loader.get_hom_condition(b, r, data=pre)
                ctx.step()
                w = want(ms, rule, min_dp)
                if w is None:
                    continue
                if got not in w:
                    c = dict(case)
                    c["rule"] = rule
                    ctx.fail(c, f"verdict {got}, expected {sorted(w)[0]} ({mode})", "verdict")
                ctx.trace({"case": dict(case, rule=rule), "verdict": got}, outcome=got)
            ctx.state((ms, rule["lower_bound"], rule["upper_bound"], rule.get("split_lock"), min_dp, got))


def all_rules(thr):
    out = []
    for lb, ub in itertools.combinations_with_replacement(BOUNDS, 2):
        for lock in (None, True, False):
            r = {"threshold": thr, "lower_bound": lb, "upper_bound": ub}
            if lock is not None:
                r["split_lock"] = lock
            out.append(r)
    return out


def cases(task):
    ms = list(multisets(task["n"]))[task["lo"]:task["hi"]]
    for m in ms:
        n = sum(m)
        dps = sorted({1, 2, n, n + 1, 5} - {0})
        if task["kind"] == "grid" and n == 0:
            continue
        for d in dps:
            thr = {0: 10.0, 1: 0.0, 2: -1.0}[(sum(m) + d) % 3]
            yield {"kind": task["kind"], "where": task["where"], "ms": list(m), "threshold": thr, "min_dp": d}


def run(task, ctx):
    for c in cases(task):
        one(ctx, c)


def replay_case(case, ctx):
    if "task" in case:
        return run(case["task"], ctx)
    one(ctx, case)
