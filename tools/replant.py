"""Refresh seeded/*/patch.diff against /repo's HEAD where context moved (fuzzy patch in a scratch copy, then a new diff)."""
import os, subprocess, shutil, glob
for d in sorted(glob.glob("/verif/seeded/*/")):
    p = d + "patch.diff"
    if subprocess.run(["git", "-C", "/repo", "apply", "--check", p], capture_output=True).returncode == 0:
        continue
    w = "/tmp/w/replant"
    shutil.rmtree(w, ignore_errors=True)
    subprocess.check_call(["git", "clone", "-q", "/repo", w])
    r = subprocess.run("patch -p1 --binary --fuzz=3 < %s" % p, shell=True, cwd=w, capture_output=True, text=True)
    out = subprocess.run(["git", "diff", "--binary"], cwd=w, capture_output=True).stdout
    print(d, "patched" if r.returncode == 0 else "FAILED " + r.stdout[-300:])
    if r.returncode == 0:
        open(p, "wb").write(out)
    shutil.rmtree(w, ignore_errors=True)
