"""C25: route enumeration, shortest-path matrices, time-space networks and externality estimates against brute force."""
import math, heapq, random, warnings
from vlib.core import Part, Info, fail, Skip, close
from vlib import scen

CPP = True
RULE = ("random networks (all topologies, parallel links, unreachable pairs, ties, tolls, closed links) before, during and after a simulation in both engines; every result is compared with exhaustive enumeration, "
        "Floyd-Warshall or a label-setting search of my own; non-trivial: more than one route exists, or the compared values differ from free flow, or an answer depends on the time")
BUDGET = {"quick": 250, "thorough": 4000}
ASSUMPTIONS = ["instantaneous times between nodes joined by parallel links use their average (as documented in the code), and are infinite if one of them admits nothing",
               "an unreachable pair is answered by an exception of networkx or an empty list"]
INF = float("inf")


def all_routes(W, o, d, limit=4000):
    outs = {}
    for l in W.LINKS:
        outs.setdefault(l.start_node.name, []).append((l.name, l.end_node.name))
    res = []

    def go(u, seen, path):
        if u == d:
            res.append(tuple(path))
            if len(res) > limit:
                raise Skip("too many routes")
            return
        for n, v in outs.get(u, []):
            if v not in seen:
                go(v, seen | {v}, path + [n])
    go(o, {o}, [])
    return res


def valid(W, r, o, d, what):
    cur, seen = o, {o}
    for n in r:
        l = W.LINKS_NAME_DICT.get(n) if hasattr(W, "LINKS_NAME_DICT") else None
        l = l if l is not None else W.get_link(n)
        if l.start_node.name != cur:
            fail("%s: route %s is not connected at %s" % (what, list(r), n), "connected")
        cur = l.end_node.name
        if cur in seen:
            fail("%s: route %s visits %s twice" % (what, list(r), cur), "loop")
        seen.add(cur)
    if cur != d:
        fail("%s: route %s ends at %s instead of %s" % (what, list(r), cur, d), "ends")


def world(case, cpp):
    from vlib import env
    ux = env.setup(cpp=cpp)
    W = scen.build(ux, case["spec"], cpp=cpp)
    if case["when"] >= 1:
        scen.finalize(W)
        if W.TSIZE == 0:
            raise Skip("no step")
    if case["when"] == 2:
        W.exec_simulation(duration_t2=W.DELTAT * (W.TSIZE // 2 + 1) * 1.0000001)
    if case["when"] == 3:
        scen.run_full(W)
    return ux, W


def kshort(cpp):
    def check(case):
        ux, W = world(case, cpp)
        from uxsim import Utilities as U
        names = [n.name for n in W.NODES]
        table = {l.name: case["table"][i % len(case["table"])] for i, l in enumerate(W.LINKS)}
        multi = 0
        for q in case["queries"]:
            o, d = names[q["o"] % len(names)], names[q["d"] % len(names)]
            if o == d:
                continue
            kw, cost = {}, None
            if q["on_t"]:
                t = q["t"] * W.DELTAT
                if q["cost"] == "default":
                    cost = lambda l: l.instant_travel_time(t)
                elif q["cost"] == "table":
                    kw["cost_function"] = lambda l, tt: table[l.name] * (1 + tt)
                    cost = lambda l: table[l.name] * (1 + t)
                else:
                    kw["cost_function"] = lambda l, tt: l.actual_travel_time(tt)
                    cost = lambda l: l.actual_travel_time(t)
                f = lambda **k: U.enumerate_k_shortest_routes_on_t(W, a, b, t=t, **kw, **k)
            else:
                if q["cost"] == "default":
                    cost = lambda l: l.length / l.u
                elif q["cost"] == "table":
                    kw["cost_function"] = lambda l: table[l.name]
                    cost = lambda l: table[l.name]
                else:
                    kw["cost_function"] = lambda l: l.length
                    cost = lambda l: l.length
                f = lambda **k: U.enumerate_k_shortest_routes(W, a, b, **kw, **k)
            a, b = (W.get_node(o), W.get_node(d)) if q["obj"] else (o, d)
            k = q["k"]
            what = "%s shortest routes %s->%s%s (%s)" % (k, o, d, " on t=%s" % t if q["on_t"] else "", q["cost"])
            want = sorted(sum(cost(W.get_link(n)) for n in r) for r in all_routes(W, o, d))
            try:
                routes, costs = f(k=k, return_cost=True)
                plain = f(k=k)
            except Exception as e:
                if not want and type(e).__module__.startswith("networkx"):
                    continue
                fail("%s: %r although %d routes exist" % (what, e, len(want)), "raises")
            if [list(r) for r in plain] != [list(r) for r in routes]:
                fail("%s: %s with costs and %s without" % (what, routes, plain), "plain")
            if len(routes) != min(k, len(want)) or len(costs) != len(routes):
                fail("%s: %d routes and %d costs, %d routes exist" % (what, len(routes), len(costs), len(want)), "number")
            if len(set(map(tuple, routes))) != len(routes):
                fail("%s: duplicates in %s" % (what, routes), "duplicate")
            for r, c, w in zip(routes, costs, want):
                valid(W, r, o, d, what)
                if not close(c, sum(cost(W.get_link(n)) for n in r)):
                    fail("%s: route %s is said to cost %s, its links cost %s" % (what, r, c, sum(cost(W.get_link(n)) for n in r)), "cost")
                if not close(c, w):
                    fail("%s: costs %s, the true ones are %s" % (what, costs, want[:k]), "order")
            if q["k"] == 1 and not q["on_t"]:
                if [list(r) for r in f()] != [list(r) for r in routes]:
                    fail("%s: default k gives %s" % (what, f()), "default k")
            multi += len(want) > 1
        return Info(multi > 0, ["when%d" % case["when"]])
    return check


def randomr(cpp):
    def check(case):
        ux, W = world(case, cpp)
        from uxsim import Utilities as U
        k = case["k"]
        names = [n.name for n in W.NODES]
        ff = {l.name: l.length / l.u for l in W.LINKS}
        st = random.getstate()
        try:
            random.seed(case["seed"])
            R = U.enumerate_k_random_routes(W, k)
            random.seed(case["seed"])
            R2 = U.enumerate_k_random_routes(W, k)
        finally:
            random.setstate(st)
        if {x: [list(r) for r in v] for x, v in R.items() if v} != {x: [list(r) for r in v] for x, v in R2.items() if v}:
            fail("the same seed of the random module gives different routes", "seed")
        multi = 0
        for o in names:
            for d in names:
                if o == d:
                    continue
                routes = [tuple(r) for r in R.get((o, d), [])]
                every = all_routes(W, o, d)
                what = "%d random routes %s->%s" % (k, o, d)
                if not every:
                    if routes:
                        fail("%s: %s, but the pair is not connected" % (what, routes), "unreachable")
                    continue
                if not routes or len(routes) > k:
                    fail("%s: %d routes, %d exist" % (what, len(routes), len(every)), "number")
                if len(set(routes)) != len(routes):
                    fail("%s: duplicates in %s" % (what, routes), "duplicate")
                for r in routes:
                    valid(W, r, o, d, what)
                c = [sum(ff[n] for n in r) for r in every]
                m = min(sum(ff[n] for n in r) for r in routes)
                if not close(m, min(c)):
                    fail("%s: the best has free-flow time %s, the shortest route has %s" % (what, m, min(c)), "shortest")
                multi += len(every) > 1
        return Info(multi > 0, ["when%d" % case["when"], "k%d" % min(k, 4)])
    return check


def fw(n, w):
    d = [[0 if i == j else w.get((i, j), INF) for j in range(n)] for i in range(n)]
    for k in range(n):
        for i in range(n):
            if d[i][k] < INF:
                for j in range(n):
                    if d[i][k] + d[k][j] < d[i][j]:
                        d[i][j] = d[i][k] + d[k][j]
    return d


def cmpmat(W, mat, want, what, key):
    n = len(W.NODES)
    for i in range(n):
        for j in range(n):
            a, b = float(mat[i][j]), want[i][j]
            if (math.isinf(b) and b > 0) != (math.isinf(a) and a > 0) or (not math.isinf(b) and not close(a, b, 1e-7)):
                fail("%s: %s->%s is %s, the true value is %s" % (what, W.NODES[i].name, W.NODES[j].name, a, b), key)


def cmpdict(W, dic, mat, what):
    n = len(W.NODES)
    if len(dic) != 2 * n * n:
        fail("%s: the dictionary has %d entries for %d nodes" % (what, len(dic), n), "dict")
    for i, x in enumerate(W.NODES):
        for j, y in enumerate(W.NODES):
            for a, b in ((x, y), (x.name, y.name)):
                if not (dic[a, b] == mat[i][j]):
                    fail("%s: [%r, %r] is %s in the dictionary and %s in the matrix" % (what, a, b, dic[a, b], mat[i][j]), "dict")


def matrices(cpp):
    def check(case):
        from vlib import env
        ux = env.setup(cpp=cpp)
        spec = dict(case["spec"])
        spec["W"] = dict(spec["W"])
        if not spec["W"].get("hard_deterministic_mode"):
            spec["W"]["duo_noise"] = 0
        W = scen.build(ux, spec, cpp=cpp)
        from uxsim import Utilities as U
        ids = {x.name: i for i, x in enumerate(W.NODES)}
        n = len(W.NODES)
        if [x.id for x in W.NODES] != list(range(n)):
            fail("node ids are %s" % [x.id for x in W.NODES], "ids")

        def dist():
            w = {}
            for l in W.LINKS:
                e = (ids[l.start_node.name], ids[l.end_node.name])
                w[e] = min(w.get(e, INF), l.length)
            m = U.get_shortest_path_distance_between_all_nodes(W, return_matrix=True)
            cmpmat(W, m, fw(n, w), "distance", "distance")
            cmpdict(W, U.get_shortest_path_distance_between_all_nodes(W), m, "distance")
        dist()
        scen.finalize(W)
        N, dt = W.TSIZE, W.DELTAT
        if N == 0:
            raise Skip("no step")
        step = max(1, int(spec["W"]["duo_update_time"] / dt))
        ch = {c["T"]: c for c in case["closures"]}
        rec, last = {}, None
        moved = False
        for T in range(N):
            if T in ch:
                W.LINKS[ch[T]["i"] % len(W.LINKS)].capacity_in = 0 if ch[T]["close"] else 5.0
            W.exec_simulation(duration_t2=dt * 1.0000001)
            if T % step == 0:
                e = {}
                closed = set()
                for l in W.LINKS:
                    p = (ids[l.start_node.name], ids[l.end_node.name])
                    tt = float(l.traveltime_instant[T]) + float(l.get_toll(T * dt))
                    e.setdefault(p, []).append(tt)
                    if l.capacity_in == 0:
                        closed.add(p)
                w = {p: (INF if p in closed else sum(v) / len(v)) for p, v in e.items()}
                moved = moved or bool(closed) or (last is not None and w != last)
                last = w
                rec[T] = fw(n, w)
            if T in case["look"]:
                what = "instantaneous times after step %d" % T
                m = U.get_shortest_path_instantaneous_travel_time_between_all_nodes(W, return_matrix=True)
                cmpmat(W, m, rec[T // step * step], what, "instant")
                cmpdict(W, U.get_shortest_path_instantaneous_travel_time_between_all_nodes(W), m, what)
                past(W, U, rec, step, dt, [T * dt, 0, T * dt / 2])
        dist()
        tm = spec["W"]["tmax"]
        past(W, U, rec, step, dt, [q * dt for q in case["ts"]] + [tm, tm * 3, tm - dt, tm - dt / 2, 0, spec["W"]["duo_update_time"], spec["W"]["duo_update_time"] * 2 - 1e-3])
        return Info(moved and len(rec) > 1, ["parallel" if len(W.LINKS) > len({(l.start_node.name, l.end_node.name) for l in W.LINKS}) else "single"])

    def past(W, U, rec, step, dt, ts):
        f = U.get_shortest_path_instantaneous_travel_time_between_all_nodes_on_t
        for t in ts:
            if t < 0:
                continue
            k = max(x for x in rec if x * dt <= t)
            what = "instantaneous times on t=%s" % t
            m, when = f(W, t, return_matrix=True, return_time=True)
            if not close(float(when), k * dt):
                fail("%s: said to be of time %s, the last computation before is of %s" % (what, when, k * dt), "time")
            cmpmat(W, m, rec[k], what, "past")
            m2 = f(W, t, return_matrix=True)
            if (m2 != m).any():
                fail("%s: differs with and without return_time" % what, "past")
            cmpdict(W, f(W, t), m, what)
    return check


def tsn(cpp):
    def check(case):
        from vlib import env
        ux = env.setup(cpp=cpp)
        W = scen.build(ux, case["spec"], cpp=cpp)
        scen.run_full(W)
        if W.TSIZE == 0:
            raise Skip("no step")
        from uxsim import Utilities as U
        tm, DT = W.TMAX, W.DELTAT
        dt = case["dt"]
        if dt == "deltat":
            dt = max(1, int(DT))
        elif dt == "double":
            dt = max(1, int(DT * 2))
        elif dt == "half":
            dt = max(1, int(DT / 2))
        eff = dt if dt is not None else max(1, int(DT))
        full = case["full"]
        if len(W.NODES) * (tm / eff) > (400 if full else 4000):
            raise Skip("too large")
        if any(not math.isfinite(x) for l in W.LINKS for x in l.traveltime_actual):
            raise Skip("infinite travel time")
        kw = {} if dt is None else {"dt": dt}
        U.construct_time_space_network(W, from_origin_only=not full, **kw)
        G = W.TSN
        times = list(range(0, int(tm), eff))
        # edges: every link at every departure, as recorded
        edges, slow = {}, 0
        for t in times:
            for l in W.LINKS:
                tt = float(l.traveltime_actual[min(int(t / DT), len(l.traveltime_actual) - 1)])
                a = int((t + tt) / eff) * eff
                if a < tm and a in times:
                    key = ((l.start_node.name, t), (l.end_node.name, a))
                    edges[key] = min(edges.get(key, INF), tt)
                    slow += tt > l.length / l.u * 1.05
            for x in W.NODES:
                edges[((x.name, t), (x.name, "end"))] = 0
        mine = {(u, v): d["weight"] for u, v, d in G.edges(data=True)}
        for u, v in mine:
            if v[1] != "end" and v[1] < u[1]:
                fail("edge %s -> %s goes back in time" % (u, v), "back")
        if set(mine) != set(edges):
            x = sorted(map(str, set(mine) ^ set(edges)))
            fail("edges %s are in only one of the network and the recorded travel times (%d of %d)" % (x[:3], len(x), len(edges)), "edges")
        for e in edges:
            if not close(mine[e], edges[e]):
                fail("edge %s weighs %s, the recorded travel time is %s" % (e, mine[e], edges[e]), "weight")
        out = {}
        for (u, v), w in edges.items():
            out.setdefault(u, []).append((v, w))
        src = [(x.name, t) for x in W.NODES for t in times] if full else \
            sorted({(v.orig.name, int(v.departure_time_in_second / eff) * eff) for v in W.VEHICLES.values() if 0 <= v.departure_time_in_second < tm})
        src = [s for s in src if s[1] in times]
        for s in src:
            if s not in W.TSN_costs or s not in W.TSN_paths:
                fail("no paths from %s" % (s,), "source")
        for s in [src[i % len(src)] for i in case["probe"]] if src else []:
            dist = {s: 0.0}
            pq = [(0.0, 0, s)]
            c = 0
            while pq:
                d, _, u = heapq.heappop(pq)
                if d > dist[u]:
                    continue
                for v, w in out.get(u, []):
                    if d + w < dist.get(v, INF):
                        dist[v] = d + w
                        c += 1
                        heapq.heappush(pq, (d + w, c, v))
            costs, paths = W.TSN_costs[s], W.TSN_paths[s]
            if set(costs) != set(dist) or set(paths) != set(dist):
                fail("from %s: reached %s" % (s, sorted(map(str, set(costs) ^ set(dist)))[:3]), "reach")
            for v in dist:
                if not close(costs[v], dist[v], 1e-7):
                    fail("from %s to %s: cost %s, the least is %s" % (s, v, costs[v], dist[v]), "cost")
                p = paths[v]
                if p[0] != s or p[-1] != v or any((a, b) not in edges for a, b in zip(p, p[1:])) or not close(sum(edges[a, b] for a, b in zip(p, p[1:])), costs[v], 1e-7):
                    fail("from %s to %s: path %s of cost %s" % (s, v, p, costs[v]), "path")
        return Info(slow > 0 and bool(src), ["full" if full else "origins", "dt %s" % case["dt"]])
    return check


def externality(cpp):
    def one(W, l, t):
        """Vehicles behind in the same queue times the headway used; None if a step outside of the period is needed."""
        tt, A, D = l.traveltime_actual, l.cum_arrival, l.cum_departure
        n, dt, ts = len(tt), W.DELTAT, int(t / W.DELTAT)
        if ts < 0 or ts >= n:
            return None
        end = ts
        for i in range(ts, n):
            if not tt[i] > l.length / l.free_flow_speed * 1.01:
                break
            f = i + int(tt[i] / dt)
            if f >= n:
                return None
            if not A[f] - D[f] > 0:
                break
            end = i
        out = ts + int(tt[ts] / dt) + 1
        if out >= n:
            return None
        lead = next((i for i in range(out, 0, -1) if D[i] < D[out]), out)
        return (out - lead) * dt * (A[end] - A[ts])

    def check(case):
        from vlib import env
        ux = env.setup(cpp=cpp)
        W = scen.build(ux, case["spec"], cpp=cpp)
        scen.run_full(W)
        if W.TSIZE == 0:
            raise Skip("no step")
        from uxsim import Utilities as U
        pos = 0
        for i, l in enumerate(W.LINKS):
            for q in case["ts"]:
                t = q * W.DELTAT
                if t >= W.TMAX:
                    continue
                want = one(W, l, t)
                with warnings.catch_warnings():
                    warnings.simplefilter("ignore")
                    a = U.estimate_congestion_externality_link(W, l.name if q % 2 else l, t)
                    tr, s = [], t
                if a < 0 or math.isnan(a):
                    fail("externality of %s at %s is %s" % (l.name, t, a), "negative")
                if want is None:
                    continue
                if not close(a, want, 1e-7):
                    fail("externality of %s at %s is %s, %s from the recorded curves" % (l.name, t, a, want), "externality")
                pos += want > 0
        for q in case["routes"]:
            l = W.LINKS[q["l"] % len(W.LINKS)]
            r = [l]
            for c in q["n"]:
                nx_ = [x for x in W.LINKS if x.start_node.name == r[-1].end_node.name]
                if not nx_:
                    break
                r.append(nx_[c % len(nx_)])
            t = s = q["t"] * W.DELTAT
            if t >= W.TMAX:
                continue
            tot, ok = 0, True
            for l in r:
                e = one(W, l, s)
                ok = ok and e is not None
                tot += e or 0
                s += l.actual_travel_time(s)
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                a = U.estimate_congestion_externality_route(W, W.defRoute([l.name for l in r]), t)
            if ok and not close(a, tot, 1e-7):
                fail("externality of route %s at %s is %s, the sum over its links is %s" % ([l.name for l in r], t, a, tot), "route externality")
        return Info(pos > 0, ["positive" if pos else "zero"])
    return check


def S(**kw):
    from hypothesis import strategies as st
    return scen.scenario_strategy(**kw)


def s_kshort():
    from hypothesis import strategies as st
    q = st.fixed_dictionaries({"o": st.integers(0, 8), "d": st.integers(0, 8), "on_t": st.booleans(), "t": st.sampled_from([0, 3, 9.5, 20, 45, 200]), "cost": st.sampled_from(["default", "table", "other"]),
                               "obj": st.booleans(), "k": st.sampled_from([1, 2, 3, 5, 10, 1000])})
    return st.fixed_dictionaries({"spec": S(max_steps=45, max_platoons=30, kinds=["random", "random", "tworoute", "grid", "ring", "cross"]), "when": st.integers(0, 3),
                                  "table": st.lists(st.sampled_from([1, 2, 3, 0.5, 1, 7.25, 0]), min_size=2, max_size=7), "queries": st.lists(q, min_size=2, max_size=5)})


def s_random():
    from hypothesis import strategies as st
    return st.fixed_dictionaries({"spec": S(max_steps=40, max_platoons=20, kinds=["random", "random", "tworoute", "grid", "ring", "cross", "merge"]), "when": st.integers(0, 3),
                                  "k": st.sampled_from([1, 2, 3, 5, 50]), "seed": st.integers(0, 2 ** 31)})


def s_matrices():
    from hypothesis import strategies as st
    return st.fixed_dictionaries({"spec": S(max_steps=60, max_platoons=50), "look": st.lists(st.integers(0, 60), max_size=4, unique=True), "ts": st.lists(st.sampled_from([0.5, 1, 2, 3.3, 7, 15, 31.9, 44]), max_size=4),
                                  "closures": st.lists(st.fixed_dictionaries({"T": st.integers(1, 50), "i": st.integers(0, 11), "close": st.booleans()}), max_size=3)})


def s_tsn():
    from hypothesis import strategies as st
    return st.fixed_dictionaries({"spec": S(max_steps=50, max_platoons=60), "dt": st.sampled_from([None, "deltat", "double", "half", 1, 3]), "full": st.booleans(), "probe": st.lists(st.integers(0, 5000), min_size=2, max_size=4)})


def s_ext():
    from hypothesis import strategies as st
    r = st.fixed_dictionaries({"l": st.integers(0, 11), "n": st.lists(st.integers(0, 3), max_size=3), "t": st.sampled_from([0, 1, 4, 10, 25])})
    return st.fixed_dictionaries({"spec": S(min_steps=40, max_steps=120, min_platoons=30, max_platoons=120, kinds=["corridor", "merge", "tworoute", "cross", "grid"]),
                                  "ts": st.lists(st.sampled_from([0, 1, 2, 3, 5, 8, 13, 21, 34, 55, 89, 100]), min_size=2, max_size=8, unique=True), "routes": st.lists(r, max_size=3)})


PARTS = [
    Part("kshort", s_kshort, kshort(False), 1500, 8000),
    Part("kshort-cpp", s_kshort, kshort(True), 1500, 8000, engine="cpp"),
    Part("random", s_random, randomr(False), 900, 6000),
    Part("random-cpp", s_random, randomr(True), 1500, 8000, engine="cpp"),
    Part("matrices", s_matrices, matrices(False), 600, 5000),
    Part("matrices-cpp", s_matrices, matrices(True), 1200, 8000, engine="cpp"),
    Part("tsn", s_tsn, tsn(False), 750, 5000),
    Part("tsn-cpp", s_tsn, tsn(True), 750, 5000, engine="cpp"),
    Part("externality", s_ext, externality(False), 600, 5000),
    Part("externality-cpp", s_ext, externality(True), 900, 8000, engine="cpp"),
]
