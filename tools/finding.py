"""Append an entry to known_findings.jsonl (used by hand, never by a check)."""
import json, sys, os
status, prop, what = sys.argv[1:4]
e = {"status": status, "property": prop}
if status == "fixed":
    e["commit"] = sys.argv[4]
    e["line"] = f"fixed: property={prop} {sys.argv[4]} {what}"
else:
    e["signature"], e["prefix"] = (sys.argv[4] + [""])[0] if False else "", sys.argv[4]
e["what"] = what
open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known_findings.jsonl"), "a").write(json.dumps(e) + "\n")
