"""C16: World.copy and World.save against worlds that were never copied."""
import json, os, shutil, subprocess, sys, tempfile
from vlib.core import Part, Info, fail
from vlib import scen, ops
from vlib.digest import digest, diff

RULE = ("random scenarios changed by random operations, copied (World.copy, World.save and dill, in this process and a fresh one, copies of copies) before finalization, between steps and after the end, original and copies "
        "continued alternately with different operations; and networks with hundreds of links or vehicles; non-trivial: vehicles on the road when copied and a change to one side after it")
BUDGET = {"quick": 200, "thorough": 3000}
SERVER = r"""
import sys, json, os
sys.path.insert(0, %r)
from vlib import env
ux = env.setup(cpp=False)
out = os.fdopen(os.dup(1), "w")
os.dup2(2, 1)
import dill
from vlib import scen, ops
from vlib.digest import digest
for line in sys.stdin:
    r = json.loads(line)
    try:
        W = dill.load(open(r["path"], "rb"))
        d0 = digest(W, False) if hasattr(W, "T") else None
        ops.run_events(W, False, r["events"])
        res = {"at": d0, "end": digest(W, False)}
    except Exception as e:
        res = {"error": "%%s: %%s" %% (type(e).__name__, e)}
    out.write(json.dumps(res) + "\n")
    out.flush()
"""
_server = []


def fresh(path, events):
    """Load and run the saved world in another Python process."""
    if not _server or _server[0].poll() is not None:
        del _server[:]
        root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
        _server.append(subprocess.Popen([sys.executable, "-c", SERVER % root], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True))
    p = _server[0]
    p.stdin.write(json.dumps({"path": path, "events": events}) + "\n")
    p.stdin.flush()
    line = p.stdout.readline()
    if not line:
        raise RuntimeError("the helper process ended (%s)" % p.poll())
    return json.loads(line)


def plain(x):
    return json.loads(json.dumps(x))


def owner(W):
    """Everything in a world belongs to that world."""
    for o in list(W.NODES) + list(W.LINKS) + list(W.VEHICLES.values()) + [getattr(W, a) for a in ("ROUTECHOICE", "analyzer") if hasattr(W, a)]:
        if o.W is not W:
            return o
    for l in W.LINKS:
        if l.start_node not in W.NODES or l.end_node not in W.NODES or any(v not in W.VEHICLES.values() for v in l.vehicles):
            return l
    return None


def duplicate(W, how, tmp):
    import dill
    if how == "copy":
        return W.copy()
    if how == "dumps":
        return dill.loads(dill.dumps(W))
    p = os.path.join(tmp, "w%d" % len(os.listdir(tmp)))
    W.save(p)
    with open(p + ".pkl", "rb") as f:
        return dill.load(f)


def same(a, b, what, key):
    d = diff(a, b)
    if d:
        fail("%s: %s" % (what, d), key)


def reference(ux, spec, events):
    W = scen.build(ux, spec)
    ops.run_events(W, False, events)
    return digest(W, False)


def advance(W, ev, n):
    """Like ops.run_events, for the next n steps only."""
    ops.run_events(W, False, [e for e in ev if W.T <= e["T"] < W.T + n], upto=W.T + n)


def check(case):
    from vlib import env
    ux = env.setup(cpp=False)
    spec = case["spec"]
    tmp = tempfile.mkdtemp(prefix="c16_")
    try:
        A = scen.build(ux, spec)
        N = int(A.TMAX / A.DELTAT)
        m = min(case["at"], N)
        before = [e for e in case["before"] if e["T"] < m]
        evA = [e for e in case["evA"] if e["T"] >= max(m, 0)]
        evB = [e for e in case["evB"] if e["T"] >= max(m, 0)]
        refA, refB = reference(ux, spec, before + evA), reference(ux, spec, before + evB)
        ini = m >= 0
        if ini:
            scen.finalize(A)
            ops.run_events(A, False, before, upto=m)
        road = ini and any(v.state == "run" for v in A.VEHICLES.values())
        hold = digest(A, False) if ini else None
        B = duplicate(A, case["how"], tmp)
        if case["again"]:
            B = duplicate(B, case["again"], tmp)
        for W in (A, B):
            o = owner(W)
            if o is not None:
                fail("after copying, %s %s belongs to another world" % (type(o).__name__, o.name), "owner")
        if ini:
            same(hold, digest(B, False), "state (original | copy)", "state")
            same(hold, digest(A, False), "copying changed the original", "state")
        if case["fresh"]:
            p = os.path.join(tmp, "fresh")
            A.save(p)
            r = fresh(p + ".pkl", evB)
            if "error" in r:
                fail("in a fresh process: %s" % r["error"], "fresh")
            if ini:
                same(plain(hold), r["at"], "state (original | fresh process)", "fresh")
            same(plain(refB), r["end"], "end (never copied | saved and continued in a fresh process)", "fresh")
        for W in (A, B):
            scen.finalize(W)
        k = 0
        while A.T < N or B.T < N:
            n = case["chunks"][k % len(case["chunks"])]
            W, ev = (A, evA) if k % 2 == case["first"] else (B, evB)
            k += 1
            if W.T < N:
                other = B if W is A else A
                hold = digest(other, False, logs=False)
                advance(W, ev, min(n, N - W.T))
                same(hold, digest(other, False, logs=False), "running one changed the other", "independence")
        same(refA, digest(A, False), "end (never copied | original)", "original")
        same(refB, digest(B, False), "end (never copied | copy)", "copy")
        ta, tb = [W.analyzer.basic_to_pandas().values.tolist() for W in (A, B)]
        ra, rb = refA.get("stats"), refB.get("stats")
        if not evA and not evB and str(ta) != str(tb):
            fail("tables differ: %s | %s" % (ta, tb), "stats")
        return Info(road and bool(evA or evB), [case["how"], "before finalization" if not ini else "at the end" if m == N else "at the start" if m == 0 else "during the run"] + ["copy of a copy"] * bool(case["again"]) + ["fresh process"] * case["fresh"])
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def check_large(case):
    from vlib import env
    ux = env.setup(cpp=False)
    g, n = case["g"], case["n"]
    W = ux.World("", deltan=case["deltan"], tmax=4000, random_seed=case["seed"], duo_update_time=300, **scen.QUIET)
    for i in range(g):
        for j in range(g if not case["line"] else 1):
            W.addNode("n%d_%d" % (i, j), i, j)
    L = []
    for i in range(g):
        for j in range(g if not case["line"] else 1):
            for a, b in ((1, 0), (0, 1)) + (((-1, 0), (0, -1)) if not case["line"] else ()):
                x, y = i + a, j + b
                if 0 <= x < g and 0 <= y < (1 if case["line"] else g):
                    L.append(W.addLink("l%d_%d_%d_%d" % (i, j, x, y), "n%d_%d" % (i, j), "n%d_%d" % (x, y), case["len"], 20, 0.2))
    last = "n%d_%d" % (g - 1, 0 if case["line"] else g - 1)
    if case["line"]:
        L[-1].capacity_out = 0.02
    W.adddemand("n0_0", last, 0, 1500, volume=n * case["deltan"])
    if not case["line"]:
        W.adddemand(last, "n0_0", 0, 1500, volume=n * case["deltan"])
    m = int(case["at"] / W.DELTAT)
    if m:
        scen.finalize(W)
        W.exec_simulation(duration_t2=m * W.DELTAT)
    tmp = tempfile.mkdtemp(prefix="c16_")
    try:
        try:
            B = duplicate(W, case["how"], tmp)
        except RecursionError as e:
            fail("%d nodes, %d links, %d vehicles: %s fails: %s" % (len(W.NODES), len(W.LINKS), len(W.VEHICLES), case["how"], e), "recursion")
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    for w in (W, B):
        scen.finalize(w)
        w.exec_simulation(duration_t2=case["more"] * w.DELTAT)
    same(digest(W, False), digest(B, False), "original | copy", "large")
    return Info(len(W.LINKS) + len(W.VEHICLES) > 150, ["line" if case["line"] else "grid"])


def strategy():
    from hypothesis import strategies as st

    @st.composite
    def gen(draw):
        spec = draw(scen.scenario_strategy(min_steps=20, max_steps=50, min_platoons=8, max_platoons=40, wild_offset=True))
        N = int(spec["W"]["tmax"] / (spec["W"]["deltan"] * spec["W"]["reaction_time"]))
        at = draw(st.sampled_from([None] * 6 + [-1, 0, N]))
        if at is None:
            at = draw(st.integers(min(N, 3), max(min(N, 3), N // 2)))

        def later():
            return [{"T": max(0, at) + e["T"], "op": e["op"]} for e in draw(ops.s_timed(max(1, N - max(0, at) - 1), max_size=3, min_size=1))] if draw(st.integers(0, 2)) else []
        return {"spec": spec, "at": at, "before": draw(ops.s_timed(N, max_size=3)) if draw(st.booleans()) else [], "evA": later(), "evB": later(),
                "how": draw(st.sampled_from(["copy", "file", "dumps"])),
                "again": draw(st.sampled_from(["", "", "copy", "file"])), "fresh": draw(st.integers(0, 4)) == 0,
                "chunks": draw(st.lists(st.integers(1, 20), min_size=1, max_size=4)), "first": draw(st.integers(0, 1))}
    return gen()


def strategy_large():
    from hypothesis import strategies as st
    return st.fixed_dictionaries({"g": st.integers(2, 12), "n": st.sampled_from([1, 30, 120, 300]), "deltan": st.sampled_from([1, 5]), "seed": st.integers(0, 99), "line": st.booleans(), "len": st.sampled_from([300, 1000, 3000]),
                                  "at": st.sampled_from([0, 300, 900, 1600]), "how": st.sampled_from(["copy", "file", "dumps"]), "more": st.integers(1, 30)})


PARTS = [
    Part("continue", strategy, check, 900, 15000),
    Part("large", strategy_large, check_large, 40, 600),
]
