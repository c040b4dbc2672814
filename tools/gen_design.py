"""Writes DESIGN.md from the properties, the checks, the evidence of the last runs, the findings and the seeds."""
import importlib
import json
import os
import sys
sys.path.insert(0, "/repo")
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
rd = lambda *p: open(os.path.join(HERE, *p)).read()
props = [json.loads(l) for l in rd("properties.jsonl").splitlines()]
known = [json.loads(l) for l in rd("known_findings.jsonl").splitlines()]
notes = json.loads(rd("tools", "notes.json"))
cost = notes.setdefault("cost", {})
tech = {c["property"]: c["technique"] for c in json.loads(rd("MANIFEST.json"))["checks"]}
out = [rd("tools", "design_head.md")]
for p in props:
    i = p["id"]
    out.append(f"### {i} {p['title']}\n\n{p['statement']}\n")
    if i not in tech:
        out.append("Not claimed: see MANIFEST.\n")
        continue
    m = importlib.import_module("checks." + i.lower())
    f = os.path.join(HERE, "evidence", i + ".json")
    if os.path.exists(f):
        e = json.load(open(f))
        if e["tier"] == "quick":
            c = e["coverage"]
            cost[i] = f"{e['wall_s']:.0f} s; {c.get('evaluations', 0)} cases, {c.get('states', 0)} states, {c.get('transitions', 0)} transitions"
    out.append(f"- *Exploration*: {tech[i]}.")
    out.append(f"- *Space and oracle*: {m.RULE}.")
    out.append("- *Bounds and assumptions*: " + "; ".join(m.ASSUMPTIONS) + ".")
    out.append(f"- *Quantified over*: {p['quantifier']['text']}.")
    out.append(f"- *Beyond the tests*: {p['why_tests_cant']}")
    out.append(f"- *Cost (quick)*: {cost.get(i, 'see evidence')}.")
    fx = [k for k in known if k["property"] == i]
    for k in fx:
        out.append(f"- *Defect {'repaired in ' + k['commit'] if k['status'] == 'fixed' else 'recorded as known finding'}*: {k['what']}.")
    out.append("")
out.append(rd("tools", "design_tail.md"))
for s in sorted(os.listdir(os.path.join(HERE, "seeded"))):
    m = json.loads(rd("seeded", s, "meta.json"))
    out.append(f"- `{s}` ({m['property']}): {m['what_it_breaks']} Needs: {m['needs']} "
               + notes.get("caught", {}).get(s, f"Caught by {m['property']} (quick)."))
open(os.path.join(HERE, "DESIGN.md"), "w").write("\n".join(out) + "\n")
json.dump(notes, open(os.path.join(HERE, "tools", "notes.json"), "w"), indent=1)
