"""python3 tools/addfix.py PROP "start of subject" [...]: record repairs in fixes.json and regenerate known_findings.json."""
import json, sys, os, subprocess
d = os.path.dirname(os.path.abspath(__file__))
p = os.path.join(d, "fixes.json")
x = json.load(open(p))
for s in sys.argv[2:]:
    if [sys.argv[1], s] not in x:
        x.append([sys.argv[1], s])
json.dump(x, open(p, "w"), indent=0)
subprocess.call([sys.executable, os.path.join(d, "gen_known.py")])
