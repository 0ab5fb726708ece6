"""C09: the same scenario and seed, built and run again under different circumstances."""
import hashlib, json, os, random, subprocess, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
from vlib.core import Part, Info, fail, canon
from vlib import scen
from vlib.digest import digest, diff

CPP = True
RULE = ("random scenarios (random and deterministic mode, area and node-list demand drawn from the world's generator) run alone, then again interleaved step by step with another random world while the "
        "global random generators are disturbed, in other processes with another hash seed, and with another seed in deterministic mode; in-place edits of one world's data against another world; "
        "non-trivial: more than one vehicle was on the road and, for the random parts, a random choice mattered")
BUDGET = {"quick": 200, "thorough": 3000}


def extra(W, ops):
    import warnings
    names = [n.name for n in W.NODES]
    outs = [n.name for n in W.NODES if n.outlinks]
    ins = [n.name for n in W.NODES if n.inlinks]
    for o in ops:
        a = [outs[i % len(outs)] for i in o["o"]]
        b = [ins[i % len(ins)] for i in o["d"]]
        if len(set(a) | set(b)) < 2 or len(set(b)) < 2:
            continue
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            if o["k"] == "nodes2":
                W.adddemand_nodes2nodes2(a, b, 0, o["dur"] * W.DELTAT, volume=o["n"] * W.DELTAN)
            elif o["k"] == "nodes":
                W.adddemand_nodes2nodes(a, b, 0, o["dur"] * W.DELTAT, volume=o["n"] * W.DELTAN)
            else:
                p, q = W.get_node(a[0]), W.get_node(b[0])
                W.adddemand_area2area2(p.x, p.y, 1.2, q.x, q.y, 10, 0, o["dur"] * W.DELTAT, volume=o["n"] * W.DELTAN)


def make_world(ux, case, cpp, **over):
    W = scen.new_world(ux, case["spec"], cpp=cpp, **over)
    scen.add_network(W, case["spec"])
    scen.add_demand(W, case["spec"])
    extra(W, case["ops"])
    return W


def world_digest(W, cpp, rng=True):
    d = digest(W, cpp)
    if not rng:
        d.pop("rng", None)
    d["colors"] = [list(map(float, v.color)) for v in W.VEHICLES.values()] if rng else None
    d["trips"] = [[v.name, v.orig.name, v.dest.name, v.departure_time] for v in W.VEHICLES.values()]
    return d


def make_same(cpp):
    def check(case):
        from vlib import env
        ux = env.setup(cpp=cpp)
        import numpy as np
        A = make_world(ux, case, cpp)
        scen.run_full(A)
        a = world_digest(A, cpp)
        random.seed(case["junk"])
        np.random.seed(case["junk"])
        other = case["other"] and {"spec": case["other"], "ops": []}
        X = None
        if other and case["first"]:
            X = make_world(ux, other, case["xcpp"])
        B = scen.new_world(ux, case["spec"], cpp=cpp)
        scen.add_network(B, case["spec"])
        if other and not case["first"]:
            X = make_world(ux, other, case["xcpp"])
        random.random(), np.random.random(3)
        scen.add_demand(B, case["spec"])
        extra(B, case["ops"])
        if X is not None:
            scen.finalize(X)
        scen.finalize(B)
        k = 0
        while B.check_simulation_ongoing():
            B.exec_simulation(duration_t2=B.DELTAT * case["chunk"])
            random.random(), np.random.random()
            k += 1
            if X is not None and X.check_simulation_ongoing():
                X.exec_simulation(duration_t2=X.DELTAT * (1 + k % 3))
                if k % 5 == 0:
                    np.random.seed(k)
        d = diff(a, world_digest(B, cpp))
        if d:
            fail("the same scenario run twice: " + d, "same")
        road = sum(1 for v in A.VEHICLES.values() if v.log_t_link and len(v.log_t_link) > 1)
        return Info(road > 1, ["with another world"] if X is not None else [])
    return check


def make_det(cpp):
    def check(case):
        from vlib import env
        ux = env.setup(cpp=cpp)
        A = make_world(ux, case, cpp)
        B = make_world(ux, case, cpp, random_seed=case["seed2"])
        for W in (A, B):
            scen.run_full(W)
        d = diff(world_digest(A, cpp, False), world_digest(B, cpp, False))
        if d:
            fail("deterministic mode with seeds %s | %s: %s" % (case["spec"]["W"]["random_seed"], case["seed2"], d), "det")
        road = sum(1 for v in A.VEHICLES.values() if v.log_t_link and len(v.log_t_link) > 1)
        return Info(road > 1)
    return check


def child():
    """Run in another process: cases on stdin, digests' hashes on stdout."""
    from vlib import env
    job = json.load(sys.stdin)
    ux = env.setup(cpp=True)
    print("HASHES " + json.dumps([one_hash(ux, c) for c in job]))


def one_hash(ux, c):
    W = make_world(ux, c, c["cpp"])
    scen.run_full(W)
    return hashlib.sha256(json.dumps(world_digest(W, c["cpp"]), sort_keys=True, default=str).encode()).hexdigest()


def check_process(case):
    from vlib import env
    ux = env.setup(cpp=True)
    mine = [one_hash(ux, c) for c in case["cases"]]
    e = dict(os.environ, PYTHONHASHSEED=str(case["hashseed"]))
    p = subprocess.run([sys.executable, os.path.abspath(__file__)], input=json.dumps(case["cases"]), capture_output=True, text=True, env=e, timeout=200)
    line = [l for l in p.stdout.splitlines() if l.startswith("HASHES ")]
    if not line:
        raise RuntimeError("child process gave no answer: " + p.stderr[-500:])
    theirs = json.loads(line[0][7:])
    bad = [i for i, (a, b) in enumerate(zip(mine, theirs)) if a != b]
    if bad:
        fail("another process simulates case %d of the batch (%s engine) differently" % (bad[0], "C++" if case["cases"][bad[0]]["cpp"] else "Python"), "process")
    return Info(True)


def state_of(W):
    from vlib.digest import norm
    return {"meta": norm(W.meta_data), "nodes": [[n.name, norm(n.signal), norm(n.signal_offset)] for n in W.NODES], "links": [[l.name, norm(l.signal_group), norm(list(l.vehicles_enter_log))] for l in W.LINKS],
            "veh": [[v.name, norm(v.links_prefer), norm(v.links_avoid), norm(v.route_pref), norm(v.dest_list), norm(v.node_event)] for v in W.VEHICLES.values()],
            "reg": [sorted(W.NODES_NAME_DICT), sorted(W.LINKS_NAME_DICT), sorted(W.VEHICLES)]}


def check_share(case):
    from vlib import env
    ux = env.setup(cpp=True)
    spec = case["spec"]
    ops = case["ops"]
    A = scen.build(ux, spec, cpp=case["acpp"])
    B = scen.build(ux, spec, cpp=case["bcpp"])
    before = state_of(A)
    for o in ops:
        n, l = B.NODES[o["i"] % len(B.NODES)], B.LINKS[o["i"] % len(B.LINKS)]
        v = list(B.VEHICLES.values())[o["i"] % len(B.VEHICLES)] if B.VEHICLES else None
        k = o["k"]
        if k == "signal":
            n.signal.append(30)
        elif k == "signal0":
            n.signal[0] = 17
        elif k == "group":
            l.signal_group.append(1)
        elif k == "meta":
            B.meta_data["x"] = o["i"]
        elif k == "dest" and v is not None:
            v.dest_list.append(n)
        elif k == "event" and v is not None:
            v.node_event[n] = print
        elif k == "prefer" and v is not None:
            v.links_prefer.append(l)
            v.links_avoid.append(l)
        elif k == "pref" and v is not None and isinstance(v.route_pref, dict):
            v.route_pref[l.id] = 5
        elif k == "add":
            B.addNode("extra%d" % len(B.NODES), 0, 0)
        elif k == "link":
            B.addLink("extra%d" % len(B.LINKS), B.NODES[0], B.NODES[-1], 100)
    d = diff(before, state_of(A))
    if d:
        fail("editing another world with %s changes this one: %s" % (ops, d), "share-" + ops[0]["k"])
    C = scen.build(ux, spec, cpp=case["acpp"])
    d = diff(before, state_of(C))
    if d:
        fail("after editing a world with %s a new one starts different: %s" % (ops, d), "share-" + ops[0]["k"])
    # two objects of one world must not share either
    if case["run"]:
        for W in (A, C):
            scen.run_full(W)
        d = diff(world_digest(A, case["acpp"]), world_digest(C, case["acpp"]))
        if d:
            fail("after editing another world, this one and a new one run differently: " + d, "share-run")
    return Info(True, sorted({o["k"] for o in ops}))


def s_ops(st):
    return st.lists(st.fixed_dictionaries({"k": st.sampled_from(["nodes2", "nodes2", "nodes", "area2"]), "o": st.lists(st.integers(0, 8), min_size=1, max_size=3, unique=True),
                                           "d": st.lists(st.integers(0, 8), min_size=2, max_size=4, unique=True), "n": st.integers(2, 12), "dur": st.integers(5, 30)}), max_size=2)


OPT = dict(zero_caps=True, max_steps=70, max_platoons=40)


def s_same(cpp):
    def s():
        from hypothesis import strategies as st
        return st.fixed_dictionaries({"spec": scen.scenario_strategy(**OPT), "ops": s_ops(st), "junk": st.integers(0, 99), "first": st.booleans(), "xcpp": st.just(cpp),
                                      "other": st.one_of(st.none(), scen.scenario_strategy(max_steps=40, max_platoons=20)), "chunk": st.sampled_from([1, 2, 7])})
    return s


def s_det():
    from hypothesis import strategies as st
    return st.fixed_dictionaries({"spec": scen.scenario_strategy(det=True, noise=0, **OPT), "ops": st.just([]), "seed2": st.one_of(st.integers(10000, 19999), st.none())})


def s_process():
    from hypothesis import strategies as st
    c = st.fixed_dictionaries({"spec": scen.scenario_strategy(min_platoons=5, **OPT), "ops": s_ops(st), "cpp": st.booleans()})
    return st.fixed_dictionaries({"cases": st.lists(c, min_size=3, max_size=8), "hashseed": st.integers(1, 1000)})


def s_share():
    from hypothesis import strategies as st
    op = st.fixed_dictionaries({"k": st.sampled_from(["signal", "signal0", "group", "meta", "dest", "event", "prefer", "pref", "add", "link"]), "i": st.integers(0, 9)})
    return st.fixed_dictionaries({"spec": scen.scenario_strategy(max_steps=30, max_platoons=15), "ops": st.lists(op, min_size=1, max_size=3), "acpp": st.booleans(), "bcpp": st.booleans(), "run": st.booleans()})


PARTS = [
    Part("python", s_same(False), make_same(False), 450, 15000),
    Part("cpp", s_same(True), make_same(True), 1100, 40000, engine="cpp"),
    Part("det-python", s_det, make_det(False), 350, 12000),
    Part("det-cpp", s_det, make_det(True), 900, 30000, engine="cpp"),
    Part("process", s_process, check_process, 48, 1500, engine="both", shrink=False),
    Part("share", s_share, check_share, 500, 10000, engine="both"),
]

if __name__ == "__main__":
    child()
