"""python -m vlib.main PROP {quick|thorough}: run one check, write its evidence, exit 0/1 (2 = check error)."""
import sys, os, json, time, subprocess, tempfile, shutil, signal

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PYBIN = "/opt/venv/bin/python"


def load_known():
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return json.load(f)


def known_keys(prop):
    return {k["key"] for k in load_known() if k["property"] == prop and k.get("status") == "known"}


def worker_env(mod_env=None):
    e = dict(os.environ)
    e.update({"PYTHONDONTWRITEBYTECODE": "1", "MPLBACKEND": "Agg", "QT_QPA_PLATFORM": "offscreen",
              "PYTHONHASHSEED": "0", "OMP_NUM_THREADS": "1", "OPENBLAS_NUM_THREADS": "1", "MKL_NUM_THREADS": "1",
              "PYTHONPATH": VERIF, "PYTHONWARNINGS": "ignore", "HYPOTHESIS_STORAGE_DIRECTORY": "/tmp/verif_hypo_unused"})
    e.update(mod_env or {})
    return e


def main():
    prop = sys.argv[1].upper()
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    nshards = int(os.environ.get("VERIF_JOBS", "8"))
    t0 = time.time()
    sys.path.insert(0, VERIF)
    from vlib import env
    env.add_hypothesis()
    import ast
    src = open(os.path.join(VERIF, "checks", prop.lower() + ".py")).read()
    meta = {"CPP": False, "RULE": "", "ENV": {}, "BUDGET": {"quick": 300, "thorough": 3000}, "ASSUMPTIONS": [], "PREPARE": None, "LEVEL": "exploration"}
    for node in ast.parse(src).body:
        if isinstance(node, ast.Assign) and isinstance(node.targets[0], ast.Name) and node.targets[0].id in meta:
            try:
                meta[node.targets[0].id] = ast.literal_eval(node.value)
            except ValueError:
                pass
    if meta["CPP"]:
        from vlib import cppbuild
        try:
            cppbuild.ensure_extension()
        except cppbuild.BuildError as e:
            print("CHECK-ERROR: cannot build the C++ engine\n%s" % e)
            sys.exit(2)
    if meta["PREPARE"]:
        r = subprocess.run([PYBIN, "-m", "checks." + meta["PREPARE"]], cwd=VERIF, env=worker_env(meta["ENV"]))
        if r.returncode != 0:
            print("CHECK-ERROR: preparation failed")
            sys.exit(2)
    outdir = tempfile.mkdtemp(prefix="verif_%s_" % prop)
    budget = float(os.environ.get("VERIF_BUDGET", meta["BUDGET"][tier]))
    deadline = time.time() + budget
    rc = 2
    try:
        procs = []
        for s in range(nshards):
            e = worker_env(meta["ENV"])
            e["HYPOTHESIS_STORAGE_DIRECTORY"] = os.path.join(outdir, "hypo")
            e["VERIF_SCRATCH"] = os.path.join(outdir, "scratch%d" % s)
            os.makedirs(e["VERIF_SCRATCH"])
            log = open(os.path.join(outdir, "log_%d" % s), "w")
            procs.append((subprocess.Popen([PYBIN, "-m", "vlib.worker", prop, tier, str(seed), str(s), str(nshards), outdir, str(deadline)],
                                           cwd=VERIF, env=e, stdout=log, stderr=subprocess.STDOUT, start_new_session=True), log))
        hard = deadline + (200 if tier == "quick" else 400)
        stuck = False
        while any(p.poll() is None for p, _ in procs):
            time.sleep(0.1)
            if time.time() > hard:
                stuck = True
                for p, _ in procs:
                    if p.poll() is None:
                        os.killpg(p.pid, signal.SIGKILL)
                break
        rc = report(prop, tier, seed, nshards, outdir, procs, meta, t0, stuck)
    finally:
        shutil.rmtree(outdir, ignore_errors=True)
    sys.stdout.flush()
    sys.exit(rc)


def save_replay(prop, v):
    import hashlib
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    h = hashlib.sha256(json.dumps(v, sort_keys=True).encode()).hexdigest()[:10]
    p = os.path.join(d, "%s-%s-%s.json" % (prop, v["part"], h))
    with open(p, "w") as f:
        json.dump({"property": prop, **v}, f, indent=1)
    return p


def report(prop, tier, seed, nshards, outdir, procs, meta, t0, stuck):
    res, errors, violations = [], [], []
    for s in range(nshards):
        f = os.path.join(outdir, "res_%d.json" % s)
        if os.path.exists(f):
            with open(f) as fh:
                res.append(json.load(fh))
            continue
        p, _ = procs[s]
        p.wait()
        with open(os.path.join(outdir, "log_%d" % s), errors="replace") as fh:
            tail = fh.read()[-3000:]
        sig = -p.returncode if p.returncode is not None and p.returncode < 0 else 0
        cur = None
        cf = os.path.join(outdir, "cur_%d.json" % s)
        if os.path.exists(cf):
            try:
                with open(cf) as fh:
                    cur = json.load(fh)
            except Exception:
                cur = None
        if sig in (signal.SIGSEGV, signal.SIGABRT, signal.SIGFPE, signal.SIGBUS, signal.SIGILL) and cur and not stuck:
            violations.append({"part": cur["part"], "case": cur["case"], "key": "crash",
                               "message": "the process crashed with signal %d while running this case\n%s" % (sig, tail[-1500:])})
        else:
            if cur:
                print("  last case of shard %d saved as %s" % (s, save_replay(prop, {"part": cur["part"], "case": cur["case"], "message": "no result", "key": None})))
            errors.append("shard %d gave no result (rc=%s%s)\n%s" % (s, p.returncode, ", stuck" if stuck else "", tail))
    agg = {"evaluations": 0, "skips": 0, "timeouts": 0, "budget_stop": 0}
    nontrivial, samples, tags, parts, known_hits = set(), [], {}, {}, {}
    for r in res:
        for k in agg:
            agg[k] += r[k]
        nontrivial |= set(r["nontrivial"])
        for smp in r["samples"]:
            if sum(1 for x in samples if x["part"] == smp["part"]) < 3:
                samples.append(smp)
        for k, v in r["tags"].items():
            tags[k] = tags.get(k, 0) + v
        for k, v in r["known_hits"].items():
            known_hits[k] = known_hits.get(k, 0) + v
        for k, v in r["parts"].items():
            d = parts.setdefault(k, {"n": 0, "nontrivial": 0, "skip": 0, "wall": 0})
            for kk in ("n", "nontrivial", "skip"):
                d[kk] += v[kk]
            d["wall"] = max(d["wall"], v["wall"])
        violations += r["violations"]
        for c in r["timeout_cases"][:2]:
            print("  case timeout, saved as %s" % save_replay(prop, {"part": c["part"], "case": c["case"], "message": "timeout", "key": None}))
        for e in r["errors"]:
            errors.append("part %s\n%s\ncase: %s" % (e["part"], e["trace"], json.dumps(e["case"])[:3000]))
    known = [k for k in load_known() if k["property"] == prop and k.get("status") == "known"]
    violations.sort(key=lambda v: len(json.dumps(v["case"])))
    vio_out = []
    for v in violations[:5]:
        path = save_replay(prop, v)
        vio_out.append({"replay": path, "part": v["part"], "message": v["message"][:2000]})
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "exploration",
          "coverage": {"evaluations": agg["evaluations"], "distinct_nontrivial": len(nontrivial), "rule": meta["RULE"],
                       "samples": [json.dumps(s)[:4000] for s in samples[:12]]},
          "wall_s": round(time.time() - t0, 2)}
    ev["coverage"]["per_part"] = parts
    ev["coverage"]["classes"] = dict(sorted(tags.items()))
    ev["coverage"]["skipped"] = agg["skips"]
    ev["coverage"]["case_timeouts"] = agg["timeouts"]
    ev["coverage"]["not_run_for_budget"] = agg["budget_stop"]
    ev["coverage"]["known_finding_hits"] = known_hits
    ev["assumptions"] = meta["ASSUMPTIONS"]
    if vio_out:
        ev["violations"] = len(violations)
        ev["violation_details"] = vio_out
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s %s seed=%d: %d cases, %d distinct non-trivial, %d skipped, %.1f s" % (
        prop, tier, seed, agg["evaluations"], len(nontrivial), agg["skips"], time.time() - t0))
    for k, v in parts.items():
        print("  part %-18s %6d cases %6d non-trivial %5d skipped %6.1f s" % (k, v["n"], v["nontrivial"], v["skip"], v["wall"]))
    if agg["budget_stop"] or agg["timeouts"]:
        print("  inconclusive: %d cases not run (time budget), %d case timeouts" % (agg["budget_stop"], agg["timeouts"]))
    for k in known:
        print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    if vio_out:
        for v in vio_out:
            print("VIOLATION property=%s replay=%s" % (prop, v["replay"]))
            print("  [%s] %s" % (v["part"], v["message"][:1500].replace("\n", "\n    ")))
        return 1
    if errors:
        for e in errors[:3]:
            print("CHECK-ERROR: " + e[:6000])
        return 2
    return 0


if __name__ == "__main__":
    main()
