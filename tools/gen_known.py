"""Writes /verif/known_findings.json: repaired defects (by commit subject) and defects recorded but not repaired. Run after adding a fix commit to /repo."""
import json, os, subprocess
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
log = subprocess.run(["git", "-C", "/repo", "log", "--format=%h %s"], capture_output=True, text=True).stdout.splitlines()
sub = {l.split(" ", 1)[1]: l.split(" ", 1)[0] for l in log}
FIX = json.load(open(os.path.join(V, "tools", "fixes.json")))      # [[property, start of the commit subject after "fix: "], ...]
KNOWN = json.load(open(os.path.join(V, "tools", "known.json")))    # entries with status "known"
out, seen = [], set()
for p, s in FIX:
    m = [k for k in sub if k.startswith("fix: " + s)]
    assert len(m) == 1, (s, m)
    seen.add(m[0])
    out.append({"property": p, "key": None, "status": "fixed", "commit": sub[m[0]], "what": m[0][5:],
                "text": "fixed: property=%s %s %s" % (p, sub[m[0]], m[0][5:])})
for k in sub:
    if k.startswith("fix: ") and k not in seen:
        print("NOT LISTED:", k)
json.dump(out + KNOWN, open(os.path.join(V, "known_findings.json"), "w"), indent=1)
print(len(out), "fixed", len(KNOWN), "known")
