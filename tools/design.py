"""Fills the generated sections of DESIGN.md from spec.py, the modules, KNOWN_FINDINGS and seeded/ (run by hand)."""
import json, os, re, sys, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V); sys.path.insert(0, os.path.join(V, "tools"))
import spec, importlib
src = open(os.path.join(V, "tools", "DESIGN.in.md")).read()
t = []
for p in spec.PROPS:
    m = importlib.import_module("mc.props." + p["id"].lower())
    ev = os.path.join(V, "evidence", p["id"] + ".json")
    cost = ""
    if os.path.exists(ev):
        e = json.load(open(ev))
        if e["tier"] == "quick":
            c = e["coverage"]
            w = e["wall_s"]
            cost = (f"about {c['states']} states, {c['transitions']} transitions, "
                    f"{c['traces_validated_against_impl']} histories compared; about {max(1, round(w / 10)) * 10} s on 8 cores")
    t.append(f"### {p['id']} {p['title']}\n\n*Explored:* {m.RULE}.\n\n*Quick bounds:* {m.bounds('quick')}.\n\n"
             f"*Thorough bounds:* {m.bounds('thorough')}.\n\n*Assumptions:* {'; '.join(m.ASSUMPTIONS)}.\n\n"
             f"*Cost (quick):* {cost}.\n\n*Why tests cannot settle it:* {p['why_tests_cant']}\n")
f = []
for l in open(os.path.join(V, "KNOWN_FINDINGS.jsonl")):
    d = json.loads(l)
    f.append(f"* {d['property']} `{d.get('commit', 'unrepaired')}`: {d['what']}")
s = ["| planted bug | property | caught by | needs |", "|---|---|---|---|"]
for d in sorted(glob.glob(os.path.join(V, "seeded", "*", "meta.json"))):
    j = json.load(open(d))
    s.append(f"| {os.path.basename(os.path.dirname(d))} | {j['property']} | {j.get('caught_by', j['property'])} | {j['needs']} |")
out = src.replace("TABLE\n", "\n".join(t), 1).replace("FIXED\n", "\n".join(f) + "\n", 1).replace("SEEDED\n", "\n".join(s) + "\n", 1)
notes = open(os.path.join(V, "tools", "SEEDNOTES.md")).read()
out = out.replace("SEEDNOTES\n", notes, 1)
open(os.path.join(V, "DESIGN.md"), "w").write(out)
