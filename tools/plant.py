"""Helper to write and try planted bugs (used while developing; no check reads seeded/).

plant(id, prop, edits, needs, breaks, demo) writes /verif/seeded/<id>/ after confirming that the
demonstration passes on the unchanged tree and fails with the change.
  python3 tools/plant.py try ID [tier]   applies the patch to /repo, runs the property's check, undoes it.
  python3 tools/plant.py try-all"""
import os, subprocess, sys, json, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = "/repo"
STUB = '''import os, sys
os.environ["MPLBACKEND"] = "Agg"
sys.dont_write_bytecode = True
import warnings; warnings.simplefilter("ignore")
import uxsim, uxsim.analyzer, uxsim.utils
import uxsim.uxsim_cpp_wrapper
for m in list(sys.modules.values()):
    if getattr(m, "__name__", "").startswith("uxsim"):
        if hasattr(m, "load_font_data"):
            m.load_font_data = lambda *a, **k: b""
        if hasattr(m, "get_font_for_matplotlib"):
            m.get_font_for_matplotlib = lambda *a, **k: "DejaVu Sans"
from uxsim import *
def world(cpp=False, **k):
    d = dict(name="", deltan=1, reaction_time=1, tmax=200, print_mode=0, save_mode=0, show_mode=0, random_seed=0, cpp=cpp)
    d.update(k)
    return World(**d)
def line(W, n=3, length=200, u=10, **k):
    for i in range(n + 1):
        W.addNode("n%d" % i, i, 0)
    return [W.addLink("l%d" % i, "n%d" % i, "n%d" % (i + 1), length, free_flow_speed=u, jam_density=0.2, **k) for i in range(n)]
'''
SH = '''#!/bin/bash
d=$(cd "$(dirname "$0")" && pwd)
exec timeout 250 /opt/venv/bin/python "$d/demo.py"
'''


def git(*a):
    return subprocess.run(["git", "-C", R, *a], capture_output=True, text=True)


def clean():
    git("checkout", "--", ".")


def build():
    r = subprocess.run(["bash", "/opt/vp/build.sh"], capture_output=True, text=True)
    if r.returncode:
        print(r.stdout[-2000:], r.stderr[-3000:])
    return r.returncode


def plant(id, prop, edits, needs, breaks, demo):
    assert not git("status", "--porcelain").stdout.strip(), "repo not clean"
    d = os.path.join(V, "seeded", id)
    os.makedirs(d, exist_ok=True)
    open(d + "/common.py", "w").write(STUB)
    open(d + "/demo.py", "w").write(demo.lstrip("\n"))
    open(d + "/demo.sh", "w").write(SH)
    os.chmod(d + "/demo.sh", 0o755)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
    run = lambda: subprocess.run(["bash", d + "/demo.sh"], cwd=R, capture_output=True, text=True)
    cpp = any("trafficpp" in e[0] for e in edits)
    a = run()
    ok = a.returncode == 0
    if not ok:
        print(id, "DEMO FAILS ON UNCHANGED TREE", a.stdout[-800:], a.stderr[-1500:])
    try:
        for f, old, new in edits:
            p = os.path.join(R, f)
            s = open(p, encoding="utf-8", newline="").read()
            if "\r\n" in s:
                old, new = old.replace("\n", "\r\n"), new.replace("\n", "\r\n")
            if s.count(old) != 1:
                print(id, "EDIT matches %d times: %r" % (s.count(old), old[:80]))
                return False
            open(p, "w", encoding="utf-8", newline="").write(s.replace(old, new))
        diff = git("diff").stdout
        open(d + "/patch.diff", "w").write(diff)
        f = None
        for l in diff.split("\n"):
            if l.startswith("--- a/"):
                base = subprocess.run(["git", "-C", R, "show", "f8c1fac:" + l[6:]], capture_output=True, text=True).stdout.split("\n")
            elif l.startswith("-") and not l.startswith("---") and l[1:].strip() and l[1:] not in base:
                print(id, "not an original line:", l)
        if cpp and build():
            print(id, "DOES NOT BUILD")
            return False
        b = run()
        if b.returncode == 0:
            print(id, "DEMO PASSES WITH THE BUG", b.stdout[-500:])
            ok = False
        else:
            print(id, "demo fails with the bug:", (b.stderr or b.stdout).strip().split("\n")[-1][:200])
    finally:
        clean()
        if cpp:
            build()
    return ok


def attempt(id, tier="quick", verbose=True):
    d = os.path.join(V, "seeded", id)
    prop = json.load(open(d + "/meta.json"))["property"]
    r = git("apply", d + "/patch.diff")
    if r.returncode:
        print(id, "DOES NOT APPLY", r.stderr)
        return None
    try:
        r = subprocess.run(["./check", prop, tier], cwd=V, capture_output=True, text=True, env=dict(os.environ, VERIF_SEED=os.environ.get("VERIF_SEED", "1"), VERIF_TIER=tier))
    finally:
        clean()
    hit = r.returncode == 1 and ("VIOLATION property=%s" % prop) in r.stdout
    print(id, prop, "CAUGHT" if hit else "MISSED rc=%d" % r.returncode, flush=True)
    if verbose:
        ls = r.stdout.strip().split("\n")
        print("\n".join("    " + l[:300] for l in (ls[:8] if hit else ls[-5:])), flush=True)
    return hit


if __name__ == "__main__":
    if sys.argv[1] == "try":
        attempt(sys.argv[2], *(sys.argv[3:4]))
    elif sys.argv[1] == "try-all":
        res = {}
        for i in sorted(os.listdir(V + "/seeded")):
            if len(sys.argv) > 2 and not any(i.startswith(x) for x in sys.argv[2:]):
                continue
            res[i] = attempt(i, verbose=False)
        print("missed:", [k for k, v in res.items() if not v])
