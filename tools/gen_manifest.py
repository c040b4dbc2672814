"""Writes MANIFEST.json from the check modules present and tools/notes.json."""
import ast, json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
notes = json.load(open(os.path.join(HERE, "tools", "notes.json")))
checks, na = [], []
for p in props:
    i = p["id"]
    f = os.path.join(HERE, "checks", i.lower() + ".py")
    if i in notes.get("not_applicable", {}):
        na.append({"property": i, "reason": notes["not_applicable"][i]})
    elif os.path.exists(f):
        consts = {}
        for n in ast.parse(open(f).read()).body:
            if isinstance(n, ast.Assign) and getattr(n.targets[0], "id", "") in ("LEVEL", "TECHNIQUE", "NOTE"):
                consts[n.targets[0].id] = ast.literal_eval(n.value)
        checks.append({"property": i, "quick_cmd": f"python3 run.py {i} --tier quick",
                       "thorough_cmd": f"python3 run.py {i} --tier thorough",
                       "technique": consts.get("TECHNIQUE", "explicit-state bounded model checking of the implementation: exhaustive enumeration of inputs, configurations and paths against a reference transition system"),
                       "level": consts["LEVEL"],
                       "level_note": consts.get("NOTE", "Exhaustive within the stated bounds; nothing is claimed for values outside the alphabets or sizes beyond the bounds.")})
    else:
        na.append({"property": i, "reason": "no check built yet"})
m = {"version": 1, "setup_cmd": "/opt/venv/bin/python -c 'import numpy'",
     "checks": checks, "not_applicable": na}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks;", len(na), "not claimed")
