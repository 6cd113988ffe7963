"""Write properties.jsonl and MANIFEST.json from props.py."""
import json
import os

from props import PROPS

HERE = os.path.dirname(os.path.abspath(__file__))

with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for pid, p in PROPS.items():
        anchors = {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]], "observe_at": p["observe"] or ["result"], "hook_needed": None}
        if p["state"]:
            anchors["state"] = [{"name": a, "meaning": b, "where": c} for a, b, c in p["state"]]
        f.write(json.dumps({"id": pid, "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["qtext"]}, "why_tests_cant": p["why"], "anchors": anchors}) + "\n")

checks = []
for pid, p in PROPS.items():
    proof = p["level"] == "proof"
    note = p["note"] or ("Contracts on " + ", ".join(p["keys"]) + " and on every function they call are discharged for all inputs." if proof else "Bounded: seeded search over generated inputs on the real code; no proof is claimed.")
    if p["bounded"]:
        note += " Bounded part: " + p["bounded"] + "."
    note += " Trusts pyvc's model of Python and the SMT solvers." if p["keys"] else ""
    checks.append({"property": pid, "quick_cmd": f"python3-vt check.py {pid} --tier quick", "thorough_cmd": f"python3-vt check.py {pid} --tier thorough",
                   "technique": p.get("technique", "contracts on the real functions, discharged by a deductive verifier (pyvc, z3/cvc5)" + ("; bounded search for the rest" if p["bounded"] else "") if p["keys"] else "bounded stand-in for contracts: seeded search against a reference on the real code"),
                   "level": p["level"], "level_note": note})
man = {"version": 1, "setup_cmd": "python3-vt -m pyvc.selftest", "checks": checks, "not_applicable": [],
       "notes": "check.py verifies the contracts of a property (and of everything they use) against /repo's current source and searches for failing inputs; props.py is the source of this file and of properties.jsonl (python3 gen.py)."}
json.dump(man, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)

# DESIGN.md: the template with the tables of properties and planted bugs
rows = []
for pid, p in PROPS.items():
    proved = ", ".join(f"`{k}`" for k in p["keys"]) or "-"
    rows.append(f"* **{pid} {p['title']}** (level: {p['level']}).  \n  Proved: {proved}" + (" and every contract these use" if p["keys"] else "") + f".  \n  Bounded: {p['bounded'] or ('-' if p['keys'] else p['title'] + ': ' + p['search'] if p.get('search') else 'seeded search over ' + p['qtext'])}.  "
                + (f"\n  {p['note']}" if p["note"] else ""))
seeds = ["| bug | property | needs | caught by |", "|---|---|---|---|"]
res = json.load(open(os.path.join(HERE, "seeded_results.json"))) if os.path.exists(os.path.join(HERE, "seeded_results.json")) else {}
for s in sorted(os.listdir(os.path.join(HERE, "seeded"))) if os.path.isdir(os.path.join(HERE, "seeded")) else []:
    m = json.load(open(os.path.join(HERE, "seeded", s, "meta.json")))
    seeds.append(f"| {s} | {m['property']} | {m['needs']} | {res.get(s, '?')} |")
t = open(os.path.join(HERE, "design.tmpl.md")).read()
if os.path.isdir(os.path.join(HERE, "seeded")):
    open(os.path.join(HERE, "DESIGN.md"), "w").write(t.replace("@@TABLE@@", "\n".join(rows)).replace("@@SEEDS@@", "\n".join(seeds)))
