"""Writes /verif/MANIFEST.json from the checks present (python3 tools/gen_manifest.py)."""
import json, os, re
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
NOTES = json.load(open(os.path.join(V, "tools", "level_notes.json")))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(V, "checks", i.lower() + ".py")):
        n = NOTES.get(i, {})
        checks.append({"property": i, "quick_cmd": "./check %s quick" % i, "thorough_cmd": "./check %s thorough" % i,
                       "technique": n.get("technique", "property-based testing (Hypothesis): generated scenarios against an invariant/model oracle"),
                       "level": "exploration",
                       "level_note": n.get("note", "Bounded random search over generated scenarios; absence of a counterexample is not a proof.")})
    else:
        na.append({"property": i, "reason": n.get("na") if (n := NOTES.get(i, {})).get("na") else "No check built yet."})
json.dump({"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
           "notes": "All checks are generated-input searches; see DESIGN.md."}, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not claimed")
