"""C22: life of every taxi request against a model driven by the observed movement of the vehicles."""
import math
from vlib.core import Part, Info, fail, Skip
from vlib import scen, ops

CPP = False
RULE = ("random networks, background traffic, taxis (with and without first destination), requests made before and during the run (also with equal origin and destination), every assignment strategy called at random intervals (between partial executions or in the world's user function), "
        "direct assignments (also to busy taxis) and extra destinations; non-trivial: at least two requests were picked up and one arrived")
BUDGET = {"quick": 250, "thorough": 4000}
ASSUMPTIONS = ["taxis have no capacity in this code: the built-in strategies use taxis without destination only, direct assignments may share a taxi", "Python engine only: the C++ engine rejects taxis",
               "a recorded time is the time of the step in which the vehicle reached the node, as for arrival_time of other vehicles"]


def xy(W, v):
    l = v.link
    r = v.x / l.length
    return l.start_node.x * (1 - r) + l.end_node.x * r, l.start_node.y * (1 - r) + l.end_node.y * r


class Model:
    """What each taxi has to do, from the assignments and the nodes it was seen to reach."""
    def __init__(s):
        s.cur, s.queue, s.todo, s.aboard = {}, {}, {}, {}       # by vehicle name: destination, further ones, requests to pick up, requests aboard
        s.time = {}     # request -> [pick-up, drop-off]
        s.by = {}

    def add(s, v, cur):
        s.cur[v], s.queue[v], s.todo[v], s.aboard[v] = cur, [], [], []

    def dest(s, v, n):
        if s.cur[v] is None:
            s.cur[v] = n
        else:
            s.queue[v].append(n)

    def assign(s, v, r, o):
        s.by[r] = v
        s.dest(v, o)
        s.todo[v].append(r)

    def visit(s, v, n, t, reqs, dep):
        """Vehicle v is at the end of a link to n at time t (dep: whether earlier events of this stay count)."""
        for r in list(s.aboard[v]):
            if reqs[r][1] == n:
                s.aboard[v].remove(r)
                s.time[r][1] = t
        for r in list(s.todo[v]):
            if reqs[r][0] == n:
                s.todo[v].remove(r)
                s.aboard[v].append(r)
                s.time[r] = [t, None]
                s.dest(v, reqs[r][1])
        if s.cur[v] == n:
            s.cur[v] = s.queue[v].pop(0) if s.queue[v] else None


def run(ux, case, per_step, obs=None):
    """Run a case; per_step: one step at a time with observation, else in the longest possible pieces. Returns world, handler, request objects."""
    import uxsim.TaxiHandler as TH
    W = scen.build(ux, case["spec"])
    outs = {l.start_node.name for l in W.LINKS}
    starts = [n.name for n in W.NODES if n.name in outs]
    ends = [l.end_node.name for l in W.LINKS]
    dt = W.DELTAT
    taxis = []
    for i, x in enumerate(case["taxis"]):
        o = starts[x["o"] % len(starts)]
        d = None if x["d"] is None else ends[x["d"] % len(ends)]
        if d == o:
            d = None
        taxis.append(W.addVehicle(o, d, x["t"] * dt, name="taxi%d" % i, mode="taxi"))
    if case["strategy"] == "radius":
        H = TH.TaxiHandler_nearest_matching_radious(W, case["radius"])
    else:
        H = {"nearest": TH.TaxiHandler_nearest, "random": TH.TaxiHandler_random, "base": TH.TaxiHandler}[case["strategy"]](W)
    scen.finalize(W)
    reqs = []

    def request(x):
        o, d = ends[x["o"] % len(ends)], ends[x["d"] % len(ends)]
        if o == d and not x["same"]:
            d = ends[(x["d"] + 1) % len(ends)]
        H.add_trip_request(o if x["obj"] else W.get_node(o), d if not x["obj"] else W.get_node(d), x["t"] * dt, **({"name": "req%d" % len(reqs)} if x["named"] else {}), attribute=[len(reqs)])
        reqs.append((o, d, x["t"] * dt))
    pend = sorted(case["requests"], key=lambda x: x["at"])
    direct = sorted(case["direct"], key=lambda x: x["T"])
    extra = sorted(case["extra"], key=lambda x: x["T"])
    while pend and pend[0]["at"] <= 0:
        request(pend.pop(0))
    if obs:
        obs.start(W, H, taxis, reqs)

    def acts(T):
        """What happens before step T (after step T-1)."""
        while pend and pend[0]["at"] <= T:
            request(pend.pop(0))
        for x in [x for x in direct if x["T"] == T]:
            free = list(H.trip_requests)
            tx = [v for v in taxis if v.state == "run" and (x["busy"] or (v.dest is None and not v.dest_list))]
            if free and tx:
                r, v = free[x["r"] % len(free)], tx[x["v"] % len(tx)]
                if obs:
                    obs.direct(v, r)
                H.assign_taxi(v, r)
        for x in [x for x in extra if x["T"] == T]:
            tx = [v for v in taxis if v.state == "run"]
            if tx:
                v = tx[x["v"] % len(tx)]
                n = ends[x["n"] % len(ends)]
                v.add_dest(n if x["obj"] else W.get_node(n))
                if obs:
                    obs.extra(v, n)
        if case["strategy"] != "base" and T % case["every"] == 0 and T > 0:
            if obs:
                obs.before(W, H)
            H.assign_trip_request_to_taxi()
            if obs:
                obs.after(W, H)
    acts(0)
    if case["hook"]:
        W.user_function = lambda w: acts(w.T + 1)
    while W.check_simulation_ongoing():
        T = W.T
        if per_step:
            n = 1
        elif case["hook"]:
            n = case["piece"]
        else:
            ts = [t for t in range(T + 1, W.TSIZE + 1) if any(x["at"] == t for x in pend) or any(x["T"] == t for x in direct + extra) or (case["strategy"] != "base" and t % case["every"] == 0)]
            n = (ts[0] if ts else W.TSIZE) - T
        if obs:
            obs.cut(W)
        W.exec_simulation(duration_t2=n * dt * 1.0000001)
        if obs:
            obs.step(W, H, T)
        if not case["hook"] and W.check_simulation_ongoing():
            acts(W.T)
    return W, H, reqs


class Observer:
    def __init__(s, case):
        s.case = case
        s.m = Model()
        s.hookq = []

    def start(s, W, H, taxis, reqs):
        s.taxis, s.reqs, s.ix = taxis, reqs, {}
        s.H = H
        s.chosen = 0
        s.pre = None
        for v in taxis:
            s.m.add(v.name, v.dest.name if v.dest is not None else None)
        s.flush = []

    def rid(s, r):
        for i, x in enumerate(s.H.trip_requests_all):
            if x is r:
                return i
        fail("a request is not in trip_requests_all", "lists")

    # with the hook, what happens inside a step comes after the vehicles moved in that step: queue it
    def put(s, *a):
        s.flush.append(a)

    def direct(s, v, r):
        s.put("assign", v.name, s.rid(r))

    def extra(s, v, n):
        s.put("dest", v.name, n)

    def before(s, W, H):
        s.pre = [(v, v.dest, list(v.dest_list), v.state, xy(W, v) if v.state == "run" else None) for v in s.taxis], list(H.trip_requests), W.T * W.DELTAT if not s.case["hook"] else W.T * W.DELTAT

    def after(s, W, H):
        pre, waiting, now = s.pre
        vac = {v.name: p for v, d, dl, st, p in pre if st == "run" and d is None}
        left = list(H.trip_requests)
        got = [r for r in waiting if not any(r is x for x in left)]
        k = s.case["strategy"]
        if [id(r) for r in left] != [id(r) for r in waiting if any(r is x for x in left)]:
            fail("T=%d: the waiting requests were %s, are %s" % (W.T, waiting, left), "lists")
        used = set()
        for r in waiting:
            due = r.depart_time <= now + 1e-9
            if any(r is x for x in got):
                if not due:
                    fail("t=%s: request %s for t=%s assigned" % (now, s.rid(r), r.depart_time), "early")
                v = r.taxi
                if v is None or v.name not in vac:
                    fail("t=%s: request %s assigned to %s, which is not vacant (vacant: %s)" % (now, s.rid(r), v, sorted(vac)), "not vacant")
                if v.name in used:
                    fail("t=%s: vacant taxi %s got two requests at once" % (now, v.name), "two at once")
                if k in ("nearest", "radius"):
                    dist = {n: math.hypot(p[0] - r.orig.x, p[1] - r.orig.y) for n, p in vac.items() if n not in used}
                    if dist[v.name] > min(dist.values()) + 1e-9:
                        fail("t=%s: request %s at %s got taxi %s at distance %s, the nearest is %s" % (now, s.rid(r), r.orig.name, v.name, dist[v.name], min(dist.items(), key=lambda x: x[1])), "nearest")
                    if k == "radius" and dist[v.name] > s.case["radius"] + 1e-9:
                        fail("t=%s: taxi %s at distance %s of request %s, radius %s" % (now, v.name, dist[v.name], s.rid(r), s.case["radius"]), "radius")
                used.add(v.name)
                s.put("assign", v.name, s.rid(r))
            else:
                if r.taxi is not None:
                    fail("waiting request %s has taxi %s" % (s.rid(r), r.taxi), "lists")
                rest = [n for n in vac if n not in used]
                if k == "radius":
                    rest = [n for n in rest if math.hypot(vac[n][0] - r.orig.x, vac[n][1] - r.orig.y) <= s.case["radius"] - 1e-9]
                if due and rest:
                    fail("t=%s: request %s is due and waits, though %s are vacant%s" % (now, s.rid(r), rest, " within the radius" if k == "radius" else ""), "left waiting")

    def apply(s):
        for a in s.flush:
            if a[0] == "assign":
                s.m.assign(a[1], a[2], s.reqs[a[2]][0])
            else:
                s.m.dest(a[1], a[2])
        s.flush = []

    def cut(s, W):
        if not s.case["hook"]:
            s.apply()
        if s.case["hook"] and W.T == 0:
            s.apply()

    def step(s, W, H, T):
        t = T * W.DELTAT
        for v in s.taxis:
            st = v.state
            at = None
            if st == "run" and v.x == v.link.length:
                at = v.link.end_node.name
            elif st in ("abort", "end") and v.name not in s.ended:
                s.ended.add(v.name)
                at = [l for x, l in v.log_t_link if not isinstance(l, (str, int))][-1].end_node.name
                if st == "end":
                    fail("T=%d: taxi %s ended" % (T, v.name), "ended")
                if not v.trip_abort or len(W.get_node(at).outlinks):
                    fail("T=%d: taxi %s aborted at node %s" % (T, v.name, at), "ended")
            if at is not None:
                s.m.visit(v.name, at, t, s.reqs, None)
                d = s.m.cur[v.name]
                if st == "run" and d is not None and d != at and not W.route_choice_update_gradual and T % W.DELTAT_ROUTE:
                    p = W.ROUTECHOICE.route_pref[W.get_node(d).id]
                    outs = list(W.get_node(at).outlinks.values())
                    if sum(p[l.id] for l in outs) > 0 and (v.route_next_link not in outs or not p[v.route_next_link.id] > 0):
                        fail("T=%d: taxi %s at %s with destination %s turns into %s; preferred links %s" % (T, v.name, at, d, v.route_next_link, [l.name for l in outs if p[l.id] > 0]), "route")
                    s.chosen += 1
        if s.case["hook"]:
            s.apply()
        for v in s.taxis:
            if v.state in ("abort", "end"):
                continue
            d = v.dest.name if v.dest is not None else None
            q = [n.name for n in v.dest_list]
            if (d, q) != (s.m.cur[v.name], s.m.queue[v.name]):
                fail("after step %d taxi %s goes to %s, then %s; by its assignments and movement: %s, then %s" % (T, v.name, d, q, s.m.cur[v.name], s.m.queue[v.name]), "destinations")
        want = [i for i in range(len(s.reqs)) if i not in s.m.by]
        if [s.rid(r) for r in H.trip_requests] != want:
            fail("after step %d the requests %s are waiting, %s were never assigned" % (T, [s.rid(r) for r in H.trip_requests], want), "lists")
        for i, r in enumerate(H.trip_requests_all):
            p, a = s.m.time.get(i, [None, None])
            if r.get_taxi_time != p or r.arrival_time != a:
                fail("after step %d request %d (%s -> %s): picked up %s, arrived %s; taxi %s was there at %s, %s" % (T, i, s.reqs[i][0], s.reqs[i][1], r.get_taxi_time, r.arrival_time, s.m.by.get(i), p, a), "times")
            if (r.taxi.name if r.taxi is not None else None) != s.m.by.get(i):
                fail("request %d has taxi %s, assigned was %s" % (i, r.taxi, s.m.by.get(i)), "taxi")
            if p is not None and p < s.reqs[i][2] and s.case["strategy"] != "base" and not s.case["direct"]:
                fail("request %d for t=%s was picked up at %s" % (i, s.reqs[i][2], p), "early")

    ended = set()


def stats(W, H, reqs, m):
    import pandas as pd
    H.compute_stats()
    D = W.DELTAN
    done = [i for i in range(len(reqs)) if m.time.get(i, [None, None])[1] is not None]
    picked = [i for i in range(len(reqs)) if i in m.time]
    tot = {"n_total_requests": D * len(reqs), "n_completed_requests": D * len(done), "number_of_taxis": D * sum(v.mode == "taxi" for v in W.VEHICLES.values()),
           "waiting_times": [m.time[i][0] - reqs[i][2] for i in picked], "travel_times": [m.time[i][1] - reqs[i][2] for i in done], "invehicle_times": [m.time[i][1] - m.time[i][0] for i in done]}
    for k, x in tot.items():
        if getattr(H, k) != x:
            fail("%s is %s, a recount gives %s" % (k, getattr(H, k), x), "stats")
    mean = lambda l: sum(l) / len(l) if l else 0
    b = H.basic_to_pandas().iloc[0].to_dict()
    want = {"total_trips": D * len(reqs), "completed_trips": D * len(done), "average_waiting_time": mean(tot["waiting_times"]), "average_invehicle_time": mean(tot["invehicle_times"]), "average_travel_time": mean(tot["travel_times"])}
    for k, x in want.items():
        if k not in b or abs(b[k] - x) > 1e-9 * max(1, abs(x)):
            fail("basic_to_pandas: %s is %s, a recount gives %s" % (k, b.get(k), x), "stats")
    df = H.trips_to_pandas()
    if len(df) != len(reqs):
        fail("trips_to_pandas has %d rows for %d requests" % (len(df), len(reqs)), "stats")
    for i, (o, d, t) in enumerate(reqs):
        row = df.iloc[i]
        p, a = m.time.get(i, [None, None])
        for c, x in [("orig", o), ("dest", d), ("depart_time", t), ("get_taxi_time", p), ("arrival_time", a), ("travel_time", None if a is None else a - t), ("waiting_time", None if p is None else p - t), ("used_taxi", m.by.get(i))]:
            y = row[c]
            if (x is None) != (pd.isna(y)) or (x is not None and x != y):
                fail("trips_to_pandas row %d: %s is %s, not %s" % (i, c, y, x), "stats")
    H.print_stats()


def check(case):
    import io, contextlib
    from vlib import env
    ux = env.setup()
    if not case["taxis"] or not case["requests"]:
        raise Skip("nothing to do")
    o = Observer(case)
    o.ended = set()
    W, H, reqs = run(ux, case, True, o)
    with contextlib.redirect_stdout(io.StringIO()):
        stats(W, H, reqs, o.m)
    names = [r.name for r in H.trip_requests_all]
    for i, r in enumerate(H.trip_requests_all):
        if r.orig.name != reqs[i][0] or r.dest.name != reqs[i][1] or r.depart_time != reqs[i][2] or r.attribute != [i]:
            fail("request %d made as %s is %s" % (i, reqs[i], r), "request")
        if names.count(r.name) > 1:
            fail("requests %s have the name %r" % ([j for j, n in enumerate(names) if n == r.name], r.name), "names")
        if H.get_trip(r.name) is not r or H.get_trip(r) is not r:
            fail("get_trip(%r) is another request" % (r.name,), "names")
    W2, H2, reqs2 = run(ux, case, False)
    for i, (a, b) in enumerate(zip(H.trip_requests_all, H2.trip_requests_all)):
        x, y = [(r.get_taxi_time, r.arrival_time, r.taxi.name if r.taxi is not None else None) for r in (a, b)]
        if x != y:
            fail("request %d: %s when executed step by step, %s in longer pieces" % (i, x, y), "pieces")
    got = sum(1 for t in o.m.time.values())
    fin = sum(1 for t in o.m.time.values() if t[1] is not None)
    return Info(got >= 2 and fin >= 1, [case["strategy"], "hook" if case["hook"] else "between"] + (["same"] if any(a == b for a, b, t in reqs) else []))


def strategy():
    from hypothesis import strategies as st
    i = st.integers(0, 30)
    return st.fixed_dictionaries({
        "spec": scen.scenario_strategy(kinds=["grid", "grid", "ring", "cross", "random", "tworoute"], min_steps=40, max_steps=110, max_platoons=25, min_platoons=0, shortlinks=True),
        "taxis": st.lists(st.fixed_dictionaries({"o": i, "d": st.sampled_from([None, None, 1, 4]), "t": st.integers(0, 8)}), min_size=1, max_size=5),
        "requests": st.lists(st.fixed_dictionaries({"o": i, "d": i, "t": st.integers(0, 50), "at": st.sampled_from([0, 0, 0, 5, 12, 30]), "same": st.sampled_from([False, False, False, True]), "obj": st.booleans(), "named": st.sampled_from([False, False, True])}), min_size=1, max_size=9),
        "strategy": st.sampled_from(["nearest", "random", "radius", "base"]), "radius": st.sampled_from([0.5, 1, 2, 0.1, 5]), "every": st.sampled_from([1, 2, 3, 7]), "hook": st.booleans(), "piece": st.sampled_from([2, 5, 1000]),
        "direct": st.lists(st.fixed_dictionaries({"T": st.integers(2, 40), "r": i, "v": i, "busy": st.booleans()}), max_size=6),
        "extra": st.lists(st.fixed_dictionaries({"T": st.integers(2, 40), "n": i, "v": i, "obj": st.booleans()}), max_size=2)})


PARTS = [
    Part("services", strategy, check, 900, 25000),
]
