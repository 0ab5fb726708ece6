#!/opt/venv/bin/python
"""replay.py FILE: run one saved case again, without the generator library. Exit 1 if it still fails."""
import sys, os, json
VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
os.environ.setdefault("OMP_NUM_THREADS", "1")
if os.environ.get("PYTHONHASHSEED") != "0":
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv("/opt/venv/bin/python", ["/opt/venv/bin/python"] + sys.argv)
from vlib.worker import load_check, run_case
rec = json.load(open(sys.argv[1]))
import tempfile, shutil
scr = os.environ["VERIF_SCRATCH"] = tempfile.mkdtemp(prefix="verif_replay_")
mod = load_check(rec["property"])
part = next(p for p in mod.PARTS if p.name == rec["part"])
status, info, msg, key = run_case(part, rec["case"])
shutil.rmtree(scr, ignore_errors=True)
print(status, key or "")
if msg:
    print(msg)
sys.exit({"ok": 0, "skip": 0, "violation": 1}.get(status, 2))
