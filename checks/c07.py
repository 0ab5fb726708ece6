"""C07: kept path costs / next hops / preferences against Floyd-Warshall on the observed link costs; lone drivers' routes."""
import math
from vlib.core import Part, Info, fail, close, Skip
from vlib import scen, trace

CPP = True
RULE = ("part 'search': random loaded networks (tolls, closures, changes during the run), every route update compared for every node pair; non-trivial: a reachable pair "
        "at two or more updates and vehicles on the road. part 'lone': one driver in an empty network, with tolls and closures; non-trivial: at least two routes exist")
BUDGET = {"quick": 200, "thorough": 3000}
INF = float("inf")


def fw(n, c):
    d = [[INF] * n for _ in range(n)]
    for i in range(n):
        d[i][i] = 0.0
    for (i, j), w in c.items():
        if w < d[i][j]:
            d[i][j] = w
    for k in range(n):
        for i in range(n):
            if d[i][k] < INF:
                for j in range(n):
                    if d[i][k] + d[k][j] < d[i][j]:
                        d[i][j] = d[i][k] + d[k][j]
    return d


def toll_at(l, t):
    f = scen.make_toll(l.get("toll"))
    return f(t) if f else 0.0


def costs(spec, ids, tt, closed, t, factor=1.0):
    """Cost of going from node to adjacent node: average over parallel links, infinite if one is closed."""
    acc = {}
    for l in spec["links"]:
        p = (ids[l["start"]], ids[l["end"]])
        acc.setdefault(p, []).append(INF if l["name"] in closed else tt[l["name"]] * factor + toll_at(l, t))
    return {p: sum(v) / len(v) for p, v in acc.items()}


class Router:
    """Reference route knowledge, fed step by step."""
    def __init__(s, W, spec, cpp):
        s.W, s.spec, s.cpp = W, spec, cpp
        s.n = len(spec["nodes"])
        s.ids = {n["name"]: i for i, n in enumerate(spec["nodes"])}
        o = spec["W"]
        s.dt = W.DELTAT
        s.every = max(1, int(o["duo_update_time"] / s.dt + 1e-12))
        s.iv = min(s.every, o.get("instantaneous_TT_timestep_interval", 5))
        s.gradual = bool(o.get("route_choice_update_gradual"))
        s.w0 = o["duo_update_weight"] * (s.dt / o["duo_update_time"] if s.gradual else 1)
        s.exact = o["hard_deterministic_mode"] or o["duo_noise"] == 0
        s.noise = 0 if s.exact else o["duo_noise"]
        s.tt = None
        s.pref = [[0.0] * len(spec["links"]) for _ in range(s.n)]
        s.nxt = None
        s.hist = {}
        s.len = {l["name"]: l["length"] for l in spec["links"]}

    def begin(s, T):
        """Instantaneous travel times of step T from the state before it."""
        if T % s.iv == 0 or s.tt is None:
            s.tt = {}
            vs = {}
            for n, v in s.W.VEHICLES.items():
                if v.state == "run":
                    vs.setdefault(v.link.name, []).append(v.v)
            for l in s.W.LINKS:
                a = vs.get(l.name)
                sp = sum(a) / len(a) if a else l.u
                s.tt[l.name] = l.length / sp if sp > 0 else l.length / (l.u / 100)

    def end(s, T, closed):
        W = s.W
        for l in W.LINKS:
            got = float(l.traveltime_instant[T])
            if not close(got, s.tt[l.name], 1e-9):
                fail("T=%d: instantaneous travel time of %s is %r, vehicles' speeds imply %r" % (T, l.name, got, s.tt[l.name]), "tt-instant")
        new = None
        if T % s.every == 0:
            R = W.ROUTECHOICE
            dist, nxt = R.dist, R.next
            lo = costs(s.spec, s.ids, s.tt, closed, T * s.dt)
            hi = costs(s.spec, s.ids, s.tt, closed, T * s.dt, 1 + s.noise) if s.noise else lo
            dl = fw(s.n, lo)
            dh = fw(s.n, hi) if s.noise else dl
            tol = 1e-9
            for i in range(s.n):
                for k in range(s.n):
                    x = float(dist[i][k])
                    if not (dl[i][k] * (1 - tol) - 1e-12 <= x <= dh[i][k] * (1 + tol) + 1e-12):
                        fail("T=%d: kept cost from node %d to %d is %r, least cost is %r%s" % (T, i, k, x, dl[i][k], "" if s.exact else " .. %r" % dh[i][k]))
                    if i != k and x < INF:
                        j = int(nxt[i][k])
                        if (i, j) not in lo or lo[i, j] == INF:
                            fail("T=%d: next hop from %d to %d is %d, which is not a neighbour with an open link" % (T, i, k, j))
                        a, b = lo[i, j] + float(dist[j][k]), hi[i, j] + float(dist[j][k])
                        if not (a * (1 - tol) <= x <= b * (1 + tol)):
                            fail("T=%d: next hop from %d to %d is %d, costing %r, kept cost is %r" % (T, i, k, j, a, x))
                    if i != k and x == INF and 0 <= int(nxt[i][k]) < s.n:
                        fail("T=%d: no route from %d to %d, but next hop %d" % (T, i, k, int(nxt[i][k])))
            s.nxt = [[int(x) for x in r] for r in nxt]
            s.hist[T] = (dl, lo)
            rec = R.dist_record if not s.cpp or T % 5 == 0 else None
            if rec is not None:
                if sorted(rec) != list(range(0, T + 1, s.every)):
                    fail("T=%d: cost records are kept for steps %s, updates happened every %d steps" % (T, sorted(rec), s.every))
                if any(float(rec[T][i][k]) != float(dist[i][k]) for i in range(s.n) for k in range(s.n)):
                    fail("T=%d: the recorded costs differ from the current ones" % T)
            new = True
        if s.gradual or new:
            for k in range(s.n):
                w = s.w0 if sum(s.pref[k]) != 0 else 1.0
                for q, l in enumerate(s.spec["links"]):
                    on = s.nxt[s.ids[l["start"]]][k] == s.ids[l["end"]]
                    s.pref[k][q] = (1 - w) * s.pref[k][q] + (w if on else 0.0)
        got = s.W._cpp_world.route_preference if s.cpp else s.W.ROUTECHOICE.route_pref
        for k in range(s.n):
            for q in range(len(s.spec["links"])):
                g = float(got[k][q])
                if not (-1e-12 <= g <= 1 + 1e-12) or abs(g - s.pref[k][q]) > 1e-9:
                    fail("T=%d: preference for link %s towards node %d is %r, the mixture is %r" % (T, s.spec["links"][q]["name"], k, g, s.pref[k][q]))


def make_search(cpp):
    def check(case):
        from vlib import env
        ux = env.setup(cpp=cpp)
        spec = case["spec"]
        W = scen.build(ux, spec, cpp=cpp)
        scen.finalize(W)
        R = Router(W, spec, cpp)
        closed = {l["name"] for l in spec["links"] if l.get("capacity_in") == 0}
        ev = {}
        for T, i, what in case["events"]:
            ev.setdefault(T, []).append((W.get_link(spec["links"][i % len(spec["links"])]["name"]), what))
        ups = 0
        while W.check_simulation_ongoing() and W.T < 200:
            T = W.T
            for l, what in ev.get(T, []):
                if what == "close":
                    l.capacity_in = 0
                    closed.add(l.name)
                elif what == "open":
                    l.capacity_in = 1.5
                    closed.discard(l.name)
                else:
                    l.change_free_flow_speed(what)
            R.begin(T)
            W.exec_simulation(duration_t2=W.DELTAT * 1.0000001)
            R.end(T, closed)
        busy = any(v.state in ("run", "end", "abort") for v in W.VEHICLES.values())
        return Info(len(R.hist) >= 2 and busy, ["gradual"] * R.gradual + ["closed"] * bool(closed) + ["exact" if R.exact else "noisy"])
    return check


def make_lone(cpp):
    def check(case):
        from vlib import env
        ux = env.setup(cpp=cpp)
        spec = case["spec"]
        seen, links = set(), []
        for l in spec["links"]:
            if (l["start"], l["end"]) not in seen:
                seen.add((l["start"], l["end"]))
                links.append(l)
        spec = dict(spec, links=links, demands=[], vehicles=[])
        outs = {}
        for l in links:
            outs.setdefault(l["start"], []).append(l)
        names = [n["name"] for n in spec["nodes"]]
        o, d = names[case["o"] % len(names)], names[case["d"] % len(names)]
        if o == d or o not in outs:
            return Info(False, ["no trip"])
        W = scen.build(ux, spec, cpp=cpp)
        v = W.addVehicle(o, d, case["dep"], departure_time_is_time_step=1)
        scen.finalize(W)
        R = Router(W, spec, cpp)
        closed = {l["name"] for l in links if l.get("capacity_in") == 0}
        tr, hist = [], []
        while W.check_simulation_ongoing() and W.T < 300:
            T = W.T
            R.begin(T)
            W.exec_simulation(duration_t2=W.DELTAT * 1.0000001)
            R.end(T, closed)
            tr.append(scen.snap(W, cpp, T))
        if not tr:
            return Info(False)
        ids, n = R.ids, R.n
        static = not any((l.get("toll") or {}).get("kind") in ("step", "linear") for l in links)
        free = {l["name"]: l["length"] / l["free_flow_speed"] for l in links}
        cost = costs(spec, ids, free, closed, 0)
        D = fw(n, cost)
        route = [x for x in trace.visits(W, tr)[v.name]]
        L = {l["name"]: l for l in links}
        nroutes = sum(1 for l in links if cost[ids[l["start"]], ids[l["end"]]] + D[ids[l["end"]]][ids[d]] < INF and
                      D[ids[o]][ids[l["start"]]] < INF) if D[ids[o]][ids[d]] < INF else 0
        # every decision is the best one for the knowledge at that time
        if R.w0 == 1 and not R.gradual:
            for x in route:
                lim = x.tin - (1 if x.prev is None else 2)
                S = [T for T in R.hist if T <= lim]
                if not S:
                    continue
                dist, c = R.hist[max(S)]
                i, j = ids[L[x.link]["start"]], ids[L[x.link]["end"]]
                if dist[i][ids[d]] < INF and not close(c[i, j] + dist[j][ids[d]], dist[i][ids[d]]):
                    fail("the lone driver to %s took %s at step %d costing %r, best was %r" % (d, x.link, x.tin, c[i, j] + dist[j][ids[d]], dist[i][ids[d]]))
        if static and D[ids[o]][ids[d]] < INF and route:
            if any(x.link in closed for x in route):
                fail("the lone driver used a closed link although an open route exists: %s" % [x.link for x in route])
            tot = sum(cost[ids[L[x.link]["start"]], ids[L[x.link]["end"]]] for x in route) + D[ids[L[route[-1].link]["end"]]][ids[d]]
            if not close(tot, D[ids[o]][ids[d]]):
                fail("the lone driver from %s to %s drove %s costing %r, least cost is %r" % (o, d, [x.link for x in route], tot, D[ids[o]][ids[d]]))
            if not any("signal" in nd for nd in spec["nodes"]) and v.state == "end":
                ff = sum(free[x.link] for x in route)
                if not (ff - 1e-6 <= v.travel_time <= ff + 3 * W.DELTAT + 1e-6) and not any(l.get("capacity_in") or l.get("capacity_out") for l in links) \
                        and not any("flow_capacity" in nd for nd in spec["nodes"]) and not spec["W"].get("adjust_node_capacity"):
                    fail("the lone driver took %s, free-flow time of its route is %s" % (v.travel_time, ff))
        return Info(len(route) > 1 and nroutes > len(route), ["static" if static else "changing tolls", v.state])
    return check


def strat_search():
    from hypothesis import strategies as st
    return st.fixed_dictionaries({
        "spec": scen.scenario_strategy(max_platoons=40, min_platoons=3, constraints=False, zero_caps=True, nodecaps=False, max_steps=60),
        "events": st.one_of(st.just([]), st.lists(st.tuples(st.integers(1, 40), st.integers(0, 11), st.sampled_from(["close", "open", 10, 4])).map(list), max_size=4))})


def strat_lone():
    from hypothesis import strategies as st

    @st.composite
    def gen(draw):
        spec = draw(scen.scenario_strategy(kinds=["grid", "tworoute", "random", "ring", "cross"], max_platoons=1, vehicles=False, zero_caps=draw(st.booleans()), parallel=False,
                                           nodecaps=False, caps=draw(st.booleans()), noise=0, options=draw(st.booleans()), signals=draw(st.booleans()), min_steps=40, max_steps=90))
        spec["W"].pop("no_cyclic_routing", None)
        if draw(st.booleans()):
            spec["W"]["duo_update_weight"] = 1
            spec["W"]["duo_update_time"] = spec["W"]["deltan"] * spec["W"]["reaction_time"] * draw(st.sampled_from([1, 3]))
        for l in spec["links"]:
            if draw(st.integers(0, 3)) == 0:
                l["toll"] = draw(st.sampled_from([{"kind": "const", "v": 5.0}, {"kind": "const", "v": 40.0}, {"kind": "const", "v": 1000.0}]))
        return {"spec": spec, "o": draw(st.integers(0, 8)), "d": draw(st.integers(0, 8)), "dep": draw(st.integers(0, 12))}
    return gen()


PARTS = [
    Part("search-python", strat_search, make_search(False), 1800, 30000),
    Part("search-cpp", strat_search, make_search(True), 1800, 30000, engine="cpp"),
    Part("lone-python", strat_lone, make_lone(False), 1800, 30000),
    Part("lone-cpp", strat_lone, make_lone(True), 1800, 30000, engine="cpp"),
]
