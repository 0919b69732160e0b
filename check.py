#!/opt/venv/bin/python
"""check.py <PROPERTY> [--tier quick|thorough] [--replay FILE]

Exit 0: the property held on everything explored.  Exit 1 with a VIOLATION line
otherwise.  Nothing else is an outcome: an internal error of the harness caused
by the code under test (e.g. it no longer imports) is reported as a violation.
"""
import argparse
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from mc import env  # noqa: E402


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--jobs", type=int, default=int(os.environ.get("MC_JOBS", "8")))
    a = ap.parse_args()
    env.reexec_if_needed([os.path.abspath(__file__)] + sys.argv[1:])
    tier = "thorough" if a.tier == "thorough" else "quick"
    from mc import core
    os.environ["MC_SCRATCH_BASE"] = env.scratch()
    os.environ["MPLCONFIGDIR"] = env.scratch()
    if a.replay:
        return core.replay(a.property, a.replay)
    try:
        env.setup_paths()
        return core.run_check(a.property, tier, a.jobs)
    except Exception as e:  # noqa
        import traceback
        traceback.print_exc()
        rdir = os.path.join(HERE, "replays")
        os.makedirs(rdir, exist_ok=True)
        p = os.path.join(rdir, f"{a.property}-error.txt")
        with open(p, "w") as f:
            traceback.print_exc(file=f)
        print(f"  could not execute the code under test: {e!r}")
        print(f"VIOLATION property={a.property} replay={p}")
        return 1


if __name__ == "__main__":
    sys.exit(main())
