"""C13: the C++ engine with several threads against the same engine with one."""
from vlib.core import Part, Info, fail, Skip
from vlib import scen, ops
from vlib.digest import digest, diff, norm

CPP = True
ENV = {"OMP_NUM_THREADS": "3", "OMP_WAIT_POLICY": "PASSIVE", "OMP_DYNAMIC": "FALSE"}
RULE = ("random scenarios (small ones of all kinds and grids of up to 36 nodes; random lane and route choices, changes during the run, runs by pieces, invalid enforced routes) with 1 and with 2 to 16 threads (also all cores, "
        "repeatedly, and another number in every piece), then batch operations; non-trivial: at least 10 vehicles moved on at least 4 links")
BUDGET = {"quick": 200, "thorough": 3000}


def batch(W, case):
    """The engine's batch operations, as plain data."""
    c = W._cpp_world
    k, seed = case["k"], case["seed"]
    out = {"routes": {str(a): b for a, b in c.enumerate_k_random_routes_cpp(k, seed).items()}}
    store = c.enumerate_od_route_sets_ids_cpp(k, seed)
    out["store"] = {a: norm(b) for a, b in store.to_csr().items()}
    for name, f in (("due", lambda: c.route_swap_due(store, case["prob"], False, seed)), ("dso", lambda: c.route_swap_dso(store, case["prob"], -1, False, seed)),
                    ("dso number", lambda: c.route_swap_dso(store, case["prob"], 3, False, seed))):
        out[name] = {a: norm(b) for a, b in f().items()}
    out["logs"] = {a: norm(b) for a, b in c.build_all_vehicle_logs_flat_compact().items()}
    out["enter"] = {a: norm(b) for a, b in c.build_enter_log_data().items()}
    out["tables"] = [W.analyzer.link_to_pandas().values.tolist(), W.analyzer.vehicles_to_pandas().astype(str).values.tolist(), W.analyzer.basic_to_pandas().values.tolist()]
    out["tables"] = norm(out["tables"])
    return out


def run(ux, case, threads):
    """Run with a list of thread numbers, one per piece; the result and the error, if any."""
    spec = dict(case["spec"])
    spec["W"] = dict(spec["W"], threads=threads[0])
    W = scen.build(ux, spec, cpp=True)
    if W.num_threads != threads[0]:
        fail("threads=%s gives %s" % (threads[0], W.num_threads), "option")
    scen.finalize(W)
    bad = case["bad"]
    if bad:
        vs = list(W.VEHICLES.values())
        for i in bad:
            if vs:
                v = vs[i % len(vs)]
                r = ops.simple_routes(W, v.orig.name, v.dest.name)
                if r:
                    v.enforce_route(r[i % len(r)][:-1] or r[0][:1])    # ends before the destination
    err = None
    pieces = len(threads)
    try:
        for i, t in enumerate(threads):
            W._cpp_world.num_threads = t
            ops.run_events(W, True, [e for e in case["events"] if e["T"] >= W.T], upto=W.TSIZE if i == pieces - 1 else W.T + max(1, W.TSIZE // pieces))
    except Exception as e:
        err = "%s: %s" % (type(e).__name__, e)
    return W, err


def check(case):
    from vlib import env
    ux = env.setup(cpp=True)
    A, ea = run(ux, case, [1] * case["pieces"])
    ref = digest(A, True) if ea is None else None
    moved = set()
    for l in A.LINKS:
        if len(l.cum_arrival) and float(list(l.cum_arrival)[-1]) > 0:
            moved.add(l.name)
    bt = batch(A, case) if ea is None else None
    for th in case["threads"]:
        th = (th * case["pieces"])[:case["pieces"]]
        for again in range(case["repeat"]):
            B, eb = run(ux, case, th)
            if ea != eb:
                fail("with threads %s: %s; with one: %s" % (th, eb, ea), "error")
            if ref is not None:
                d = diff(ref, digest(B, True))
                if d:
                    fail("threads 1 | %s: %s" % (th, d), "run")
                d = diff(bt, batch(B, case))
                if d:
                    fail("batch operations, threads 1 | %s: %s" % (th, d), "batch")
    n = sum(v.state in ("run", "end") for v in A.VEHICLES.values())
    return Info(n >= 10 and len(moved) >= 4, ["an invalid route stops the run"] * (ea is not None) + ["all cores"] * any(-1 in t for t in case["threads"]) + ["threads changed"] * any(len(set(t)) > 1 for t in case["threads"]))


def common(st, spec, n):
    th = st.sampled_from([2, 3, 4, 8, 5, 16, -1, 7])
    return {"spec": st.just(spec), "threads": st.lists(st.lists(th, min_size=1, max_size=3), min_size=1, max_size=2), "pieces": st.sampled_from([1, 1, 3]),
            "events": st.one_of(st.just([]), ops.s_timed(n, max_size=4)), "bad": st.sampled_from([[]] * 9 + [[3], [1, 5, 9]]), "k": st.sampled_from([1, 3]), "seed": st.integers(0, 999), "prob": st.sampled_from([0.0, 0.3, 1.0]), "repeat": st.sampled_from([1, 1, 2])}


def strategy():
    from hypothesis import strategies as st

    @st.composite
    def gen(draw):
        spec = draw(scen.scenario_strategy(max_steps=60, max_platoons=60, min_platoons=10))
        n = int(spec["W"]["tmax"] / (spec["W"]["deltan"] * spec["W"]["reaction_time"]))
        return draw(st.fixed_dictionaries(common(st, spec, n)))
    return gen()


def strategy_grid():
    from hypothesis import strategies as st

    @st.composite
    def gen(draw):
        a, b = draw(st.integers(3, 6)), draw(st.integers(3, 6))
        dn = draw(st.sampled_from([1, 5]))
        steps = draw(st.integers(40, 90))
        cyc = lambda s, lo=3, hi=7: draw(st.lists(s, min_size=lo, max_size=hi))
        lens, lanes, speeds, caps, prio = cyc(st.sampled_from([1, 2, 3, 5])), cyc(st.sampled_from([1, 1, 2, 3])), cyc(st.sampled_from([10, 20, 15])), cyc(st.sampled_from([None, None, 0.3, 0.8])), cyc(st.sampled_from([1, 2, 0.5]))
        sig, ncap = cyc(st.sampled_from([None, None, [2, 3]])), cyc(st.sampled_from([None, None, None, 0.5]))
        nodes, links = [], []
        for i in range(a):
            for j in range(b):
                n = {"name": "N%d_%d" % (i, j), "x": i, "y": j}
                k = i * b + j
                if sig[k % len(sig)]:
                    n["signal"] = [x * dn for x in sig[k % len(sig)]]
                if ncap[k % len(ncap)]:
                    n["flow_capacity"] = ncap[k % len(ncap)]
                nodes.append(n)
        for n in nodes:
            for (x, y) in ((1, 0), (0, 1), (-1, 0), (0, -1)):
                i, j = n["x"] + x, n["y"] + y
                if 0 <= i < a and 0 <= j < b:
                    k = len(links)
                    u = speeds[k % len(speeds)]
                    l = {"name": "L%d" % k, "start": n["name"], "end": "N%d_%d" % (i, j), "free_flow_speed": u, "length": u * dn * lens[k % len(lens)], "number_of_lanes": lanes[k % len(lanes)], "jam_density_per_lane": 0.2,
                         "merge_priority": prio[k % len(prio)], "signal_group": [0 if x else 1]}
                    if caps[k % len(caps)]:
                        l["capacity_out"] = caps[k % len(caps)]
                    links.append(l)
        dem = []
        for q in range(draw(st.integers(3, 8))):
            o, d = draw(st.integers(0, a * b - 1)), draw(st.integers(0, a * b - 1))
            if o != d:
                dem.append({"orig": nodes[o]["name"], "dest": nodes[d]["name"], "t_start": 0, "t_end": steps * dn * 0.6, "flow": draw(st.sampled_from([0.2, 0.5, 1.0]))})
        spec = {"W": {"deltan": dn, "reaction_time": 1, "tmax": steps * dn, "random_seed": draw(st.integers(0, 999)), "hard_deterministic_mode": draw(st.booleans()), "duo_noise": draw(st.sampled_from([0, 0.01, 0.3])),
                      "duo_update_time": dn * draw(st.sampled_from([1, 5, 20])), "duo_update_weight": 0.5, "no_cyclic_routing": draw(st.booleans()), "route_choice_update_gradual": draw(st.booleans())},
                "nodes": nodes, "links": links, "demands": dem, "vehicles": []}
        c = common(st, spec, steps)
        return draw(st.fixed_dictionaries(c))
    return gen()


PARTS = [
    Part("small", strategy, check, 700, 12000, engine="cpp"),
    Part("grid", strategy_grid, check, 300, 6000, engine="cpp"),
]
