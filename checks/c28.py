"""C28: observation does not disturb. Runs with and without queries, analyses, printing and other logging intervals are compared."""
import contextlib, io, os, sys, warnings
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
from vlib.core import Part, Info, fail, Skip
from vlib import scen, ops
from vlib.digest import digest, diff, norm

CPP = True
RULE = ("the same random scenario run undisturbed and with analyses, tables, queries, prints, progress display and summaries called at random steps; final states, records and the answers of every query (in another order, "
        "repeated) are compared; other runs differ in logging interval, printing and progress options; non-trivial: vehicles on the road when a query was made (query parts), at least two vehicles drove (option parts)")
BUDGET = {"quick": 200, "thorough": 3000}


@contextlib.contextmanager
def quiet():
    """Nothing printed by Python or C++ reaches the harness."""
    sys.stdout.flush()
    fd, nul = os.dup(1), os.open(os.devnull, os.O_WRONLY)
    os.dup2(nul, 1)
    old = sys.stdout
    sys.stdout = io.StringIO()
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            yield
    finally:
        sys.stdout = old
        os.dup2(fd, 1)
        os.close(fd), os.close(nul)


def table(df):
    return {"cols": list(df.columns), "rows": norm(df.to_numpy().tolist())}


def q_link_queries(W, i, t):
    l = W.LINKS[i % len(W.LINKS)]
    return [norm(f(t)) for f in (l.arrival_count, l.departure_count, l.num_vehicles_t, l.average_density, l.instant_travel_time, l.average_speed, l.average_flow, l.get_toll)] + [norm(l.inflow_between(0, t))]


def q_link_actual(W, i, t):
    l = W.LINKS[i % len(W.LINKS)]
    return [norm(l.actual_travel_time(t)), norm(l.average_travel_time_between(0, t))]


def q_props(W, i, t):
    return [[norm(getattr(l, a)) for a in ("speed", "density", "flow", "num_vehicles", "num_vehicles_queue")] for l in W.LINKS] + [[n.name, norm(n.signal_phase)] for n in W.NODES] + [repr(W.LINKS[0]), repr(W.NODES[0])]


def q_vehicle(W, i, t):
    v = list(W.VEHICLES.values())[i % len(W.VEHICLES)]
    r, ts = v.traveled_route()
    return [v.state, norm(v.travel_time), norm(v.arrival_time), norm(v.distance_traveled), [l.name for l in r.links], norm(ts), norm(v.get_xy_coords()), len(v.log_t), norm(list(v.log_x)[-3:]), repr(v)]


def q_xy(W, i, t):
    v = list(W.VEHICLES.values())[i % len(W.VEHICLES)]
    return norm(v.get_xy_coords(t))


def q_route(W, i, t):
    c = ops.pairs(W)
    if not c:
        return None
    rs = ops.simple_routes(W, *c[i % len(c)])
    r = W.defRoute(rs[i % len(rs)])
    return [norm(r.actual_travel_time(t)), [l.name for l in r.links], len(r)]


def q_utilities(W, i, t):
    from uxsim import Utilities as U
    c = ops.pairs(W)
    if not c:
        return None
    o, d = c[i % len(c)]
    return [[str(x) for x in U.enumerate_k_shortest_routes(W, o, d, k=2)], norm(U.get_shortest_path_distance_between_all_nodes(W, return_matrix=True)),
            norm(U.get_shortest_path_instantaneous_travel_time_between_all_nodes(W, return_matrix=True))]


def q_random_routes(W, i, t):
    from uxsim import Utilities as U
    U.enumerate_k_random_routes(W, 1 + i % 2)     # consumes no randomness of the simulation; its own answer is random
    return None


def q_tsn(W, i, t):
    from uxsim import Utilities as U
    U.construct_time_space_network(W)
    return len(W.TSN_paths) if hasattr(W, "TSN_paths") else None


def q_groups(W, i, t):
    vs = list(W.VEHICLES.values())
    return table(W.analyzer.vehicle_groups_to_pandas([vs[::2], vs], group_names=["a", "b"]))


def q_areas(W, i, t):
    ns = [n.name for n in W.NODES]
    return table(W.analyzer.area_to_pandas([ns[:1], ns], area_names=["a", "b"], border_include=i % 2))


def q_a2a(W, i, t):
    ns = [n.name for n in W.NODES]
    return table(W.analyzer.areas2areas_to_pandas([ns[:1], ns[1:]], area_names=["a", "b"]))


def q_stats(W, i, t):
    W.analyzer.print_simple_stats(force_print=True)
    W.print_scenario_stats()
    W.analyzer.show_simulation_progress()
    return [norm(W.analyzer.average_speed)]


def q_basic(W, i, t):
    W.analyzer.basic_analysis()
    return [norm(getattr(W.analyzer, a)) for a in ("trip_all", "trip_completed", "total_travel_time", "average_travel_time", "total_delay", "average_delay", "total_distance_traveled")] + [table(W.analyzer.basic_to_pandas())]


def q_congestion(W, i, t):
    from uxsim import Utilities as U
    return norm(U.estimate_congestion_externality_link(W, W.LINKS[i % len(W.LINKS)], t))


def q_nodes(W, i, t):
    n = W.NODES[i % len(W.NODES)]
    return [W.get_nearest_node(n.x + 0.1, n.y).name, sorted(m.name for m in W.get_nodes_in_area(n.x, n.y, 1.5)), W.get_node(n.name).name, W.get_link(W.LINKS[0]).name, norm(W.ROUTECHOICE.dist)]


QUERIES = {
    "link": q_link_queries, "actual": q_link_actual, "props": q_props, "vehicle": q_vehicle, "xy": q_xy, "route": q_route, "util": q_utilities, "randroutes": q_random_routes, "tsn": q_tsn,
    "groups": q_groups, "areas": q_areas, "a2a": q_a2a, "stats": q_stats, "basic": q_basic, "external": q_congestion, "nodes": q_nodes,
    "t_od": lambda W, i, t: table(W.analyzer.od_to_pandas()), "t_link": lambda W, i, t: table(W.analyzer.link_to_pandas()), "t_trip": lambda W, i, t: table(W.analyzer.vehicle_trip_to_pandas()),
    "t_veh": lambda W, i, t: table(W.analyzer.vehicles_to_pandas()), "t_gps": lambda W, i, t: table(W.analyzer.gps_like_log_to_pandas()), "t_edie": lambda W, i, t: table(W.analyzer.link_traffic_state_to_pandas()),
    "t_mfd": lambda W, i, t: table(W.analyzer.mfd_to_pandas()), "t_mfd1": lambda W, i, t: table(W.analyzer.mfd_to_pandas(W.LINKS[:1 + i % 3])), "t_cum": lambda W, i, t: table(W.analyzer.link_cumulative_to_pandas()),
}
NAMES = sorted(QUERIES)


def ask(W, q, t=None):
    t = q["t"] * W.DELTAT if t is None else t
    try:
        return QUERIES[q["q"]](W, q["i"], t)
    except Exception as e:
        return "EXC %s" % type(e).__name__


def make_query(cpp):
    def check(case):
        from vlib import env
        ux = env.setup(cpp=cpp)
        spec = case["spec"]
        A, B = scen.build(ux, spec, cpp=cpp), scen.build(ux, spec, cpp=cpp)
        if not A.VEHICLES:
            raise Skip("no vehicle")
        busy = 0
        with quiet():
            if case["before"]:
                for q in case["before"]:
                    ask(B, q)
            scen.run_full(A)
            scen.finalize(B)
            for step in case["steps"]:
                T = step["T"]
                if not B.T <= T < B.TSIZE:
                    continue
                if T > B.T:
                    B.exec_simulation(duration_t2=(T - B.T) * B.DELTAT)
                run = any(v.state == "run" for v in B.VEHICLES.values())
                for q in step["qs"]:
                    a = ask(B, q)
                    b = ask(B, q)
                    busy += run
                    d = diff(a, b)
                    if d:
                        fail("T=%d: %s asked twice: %s" % (B.T, q, d), "twice-" + q["q"])
            if B.T < B.TSIZE:
                B.exec_simulation()
            d = diff(digest(A, cpp), digest(B, cpp))
            if d:
                fail("undisturbed | with %s: %s" % (sorted({q["q"] for s in case["steps"] for q in s["qs"]}), d), "disturbed")
            a = [ask(A, q) for q in case["final"]]
            order = case["order"]
            n = len(case["final"])
            for k in order:
                q = case["final"][k % n]
                b = ask(B, q)
                d = diff(a[k % n], b)
                if d:
                    fail("final answer of %s differs after other queries: %s" % (q, d), "answer-" + q["q"])
            d = diff(digest(A, cpp), digest(B, cpp))
            if d:
                fail("after final queries: " + d, "disturbed")
        return Info(busy > 0, sorted({q["q"] for s in case["steps"] for q in s["qs"]}))
    return check


def make_options(cpp):
    def check(case):
        from vlib import env
        ux = env.setup(cpp=cpp)
        spec, o = case["spec"], dict(case["opt"])
        iv = o.get("vehicle_logging_timestep_interval", 1)
        if cpp and iv not in (1, -1):
            o.pop("vehicle_logging_timestep_interval")
            iv = 1
        toggle = o.pop("toggle", None)
        with quiet():
            A, B = scen.build(ux, spec, cpp=cpp), scen.build(ux, spec, cpp=cpp, **o)
            scen.run_full(A)
            scen.finalize(B)
            if toggle is not None and toggle < B.TSIZE:
                if toggle > 0:
                    B.exec_simulation(duration_t2=toggle * B.DELTAT)
                B.change_print_mode(1 - bool(o.get("print_mode")))
                if B.T < B.TSIZE:
                    B.exec_simulation()
            else:
                scen.run_full(B)
            a, b = digest(A, cpp, logs=iv == 1), digest(B, cpp, logs=iv == 1)
            if cpp and iv == -1:        # the C++ engine keeps no link entry times without logging
                for d in (a, b):
                    for v in d["veh"].values():
                        v.pop("log_t_link")
            d = diff(a, b)
            if d:
                fail("default options | %s: %s" % (case["opt"], d), "options")
            if iv > 1:      # the recorded rows are a selection of those recorded at every step
                for n, v in A.VEHICLES.items():
                    w = B.VEHICLES[n]
                    rows = [list(map(norm, r)) for r in zip(v.log_t, v.log_state, v.log_link, v.log_x, v.log_v, v.log_s, v.log_lane)]
                    got = [list(map(norm, r)) for r in zip(w.log_t, w.log_state, w.log_link, w.log_x, w.log_v, w.log_s, w.log_lane)]
                    want = [r for r in rows if round(r[0] / A.DELTAT) % iv == 0 or r[1] in ("end", "abort")]
                    if got != want:
                        fail("vehicle %s logged every %d steps: %s instead of %s" % (n, iv, got[:6], want[:6]), "interval")
        return Info(sum(1 for v in A.VEHICLES.values() if len(v.log_t_link) > 1) > 1, sorted(o))
    return check


def s_query():
    from hypothesis import strategies as st
    q = st.fixed_dictionaries({"q": st.sampled_from(NAMES), "i": st.integers(0, 9), "t": st.sampled_from([0, 1, 3.5, 7, 20, 55])})
    return st.fixed_dictionaries({"spec": scen.scenario_strategy(max_steps=50, max_platoons=25, min_platoons=4, zero_caps=True), "before": st.one_of(st.just([]), st.lists(q, max_size=2)),
                                  "steps": st.lists(st.fixed_dictionaries({"T": st.integers(0, 45), "qs": st.lists(q, min_size=1, max_size=5)}), min_size=1, max_size=4).map(lambda x: sorted(x, key=lambda s: s["T"])),
                                  "final": st.lists(q, min_size=2, max_size=6), "order": st.lists(st.integers(0, 5), min_size=2, max_size=8)})


def s_options():
    from hypothesis import strategies as st
    opt = st.fixed_dictionaries({}, optional={"print_mode": st.integers(0, 1), "show_progress": st.integers(0, 1), "show_progress_deltat": st.sampled_from([1, 5, 60, 600, 13.7]), "save_mode": st.just(0),
                                              "vehicle_logging_timestep_interval": st.sampled_from([-1, 1, 2, 3, 7]), "reduce_memory_delete_vehicle_route_pref": st.booleans(),
                                              "meta_data": st.just({"a": 1}), "name": st.sampled_from(["x", "run 1"]), "toggle": st.integers(0, 40)})
    return st.fixed_dictionaries({"spec": scen.scenario_strategy(max_steps=60, max_platoons=35, zero_caps=True), "opt": opt})


PARTS = [
    Part("query-python", s_query, make_query(False), 500, 12000),
    Part("query-cpp", s_query, make_query(True), 700, 20000, engine="cpp"),
    Part("options-python", s_options, make_options(False), 600, 15000),
    Part("options-cpp", s_options, make_options(True), 1200, 40000, engine="cpp"),
]
