"""C17: every trip, link, area and group report against a recount from step-by-step observation."""
import heapq, math, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
from vlib.core import Part, Info, fail, Skip, close
from vlib import scen, ops
from vlib.trace import visits

CPP = True
RULE = ("random scenarios with aborted, unfinished and unreachable trips, parallel and closed links, run to a random moment and then to the end; all reports are produced in random order, twice, at both moments and compared with a recount "
        "from the observed history; non-trivial: two or more origin-destination pairs, a completed trip and a trip still under way or aborted in the recounted state")
BUDGET = {"quick": 200, "thorough": 3000}
ASSUMPTIONS = ["free-flow times and shortest distances use the link parameters at the time of the report; pairs without any open path are compared only for the other columns",
               "travel time of a trip counts from its departure time (time step) to the step in which it ends, as Vehicle.travel_time"]


def dijkstra(W, cost):
    """All-pairs least cost by names, with closed links removed."""
    out = {}
    adj = {}
    for l in W.LINKS:
        if l.capacity_in != 0:
            adj.setdefault(l.start_node.name, []).append((l.end_node.name, cost(l)))
    for n in W.NODES:
        d = {n.name: 0.0}
        q = [(0.0, n.name)]
        while q:
            x, u = heapq.heappop(q)
            if x > d[u]:
                continue
            for v, c in adj.get(u, []):
                if x + c < d.get(v, math.inf):
                    d[v] = x + c
                    heapq.heappush(q, (x + c, v))
        for m in W.NODES:
            out[n.name, m.name] = d.get(m.name, math.inf)
    return out


class Recount:
    def __init__(s, W, tr):
        s.W, s.tr, s.dn, s.dt = W, tr, W.DELTAN, W.DELTAT
        s.vis = visits(W, tr)
        last = tr[-1].vehs if tr else {}
        s.state, s.tt, s.dist, s.od = {}, {}, {}, {}
        end = {}
        for sn in tr:
            for n, v in sn.vehs.items():
                if v[0] in ("end", "abort") and n not in end:
                    end[n] = sn.T
        L = {l.name: l.length for l in W.LINKS}
        for n, v in W.VEHICLES.items():
            st = last[n][0] if n in last else "home"
            s.state[n] = st
            s.od[n] = (v.orig.name, v.dest.name)
            s.tt[n] = (end[n] - int(v.departure_time)) * s.dt if st == "end" else -1
            d = 0.0
            for x in s.vis[n]:
                d += L[x.link] if x.tout is not None else last[n][2]
            s.dist[n] = d
        s.free = dijkstra(W, lambda l: l.length / l.u)
        s.short = dijkstra(W, lambda l: l.length)
        N = len(tr)
        s.arr = {l: 0 for l in L}
        s.dep = {l: 0 for l in L}
        for vs in s.vis.values():
            for x in vs:
                s.arr[x.link] += s.dn
                if x.tout is not None:
                    s.dep[x.link] += s.dn
        # time-mean of the actual travel time curve of each link
        s.curve = {}
        T = W.TSIZE
        u0 = s.u0
        for l in W.LINKS:
            c = [l.length / u0[l.name]] * T
            evs = []
            for vs in s.vis.values():
                for x in vs:
                    if x.link == l.name and x.tout is not None:
                        evs.append((x.tout + (x.exit != "transfer"), x.tin, (x.tout - x.tin + (x.exit != "transfer")) * s.dt))
            evs.sort()
            for _, tin, val in evs:
                for k in range(tin, T):
                    c[k] = val
            s.curve[l.name] = c
    u0 = {}


def num(name, where, got, want, tol=1e-9):
    g, w = float(got), float(want)
    if math.isnan(g) and math.isnan(w):
        return
    if g != w and not abs(g - w) <= tol * max(1, abs(g), abs(w)):
        fail("%s of %s: reported %s, recounted %s" % (name, where, got, want), name)


def mean(x):
    return sum(x) / len(x)


def std(x):
    m = mean(x)
    return math.sqrt(sum((a - m) ** 2 for a in x) / len(x))


def check_od(W, r):
    df = W.analyzer.od_to_pandas()
    want = {}
    for n in r.od:
        want.setdefault(r.od[n], []).append(n)
    rows = {}
    for row in df.to_dict("records"):
        k = (row["orig"], row["dest"])
        if k in rows:
            fail("od table lists %s twice" % (k,), "rows")
        rows[k] = row
    if set(rows) != set(want):
        fail("od table lists pairs %s, the trips have %s" % (sorted(rows), sorted(want)), "rows")
    for k, ns in want.items():
        row, w = rows[k], "od %s-%s" % k
        done = [n for n in ns if r.state[n] == "end"]
        num("total_trips", w, row["total_trips"], len(ns) * r.dn)
        num("completed_trips", w, row["completed_trips"], len(done) * r.dn)
        num("average_travel_time", w, row["average_travel_time"], mean([r.tt[n] for n in done]) if done else 0)
        num("stddiv_travel_time", w, row["stddiv_travel_time"], std([r.tt[n] for n in done]) if done else 0, 1e-7)
        ds = [r.dist[n] for n in ns]
        num("average_distance_traveled_per_veh", w, row["average_distance_traveled_per_veh"], mean(ds), 1e-7)
        num("stddiv_distance_traveled_per_veh", w, row["stddiv_distance_traveled_per_veh"], std(ds), 1e-5)
        if r.free[k] < math.inf:
            num("free_travel_time", w, row["free_travel_time"], r.free[k])
            num("shortest_distance", w, row["shortest_distance"], r.short[k])


def check_basic(W, r):
    W.analyzer.basic_analysis()
    a = W.analyzer
    done = [n for n in r.state if r.state[n] == "end"]
    num("trip_all", "world", a.trip_all, len(r.state) * r.dn)
    num("trip_completed", "world", a.trip_completed, len(done) * r.dn)
    num("total_distance_traveled", "world", a.total_distance_traveled, sum(r.dist.values()) * r.dn, 1e-7)
    df = W.analyzer.basic_to_pandas().to_dict("records")
    if len(df) != 1:
        fail("basic table has %d rows" % len(df))
    if done:
        tot = sum(r.tt[n] for n in done) * r.dn
        num("total_travel_time", "world", a.total_travel_time, tot)
        num("average_travel_time", "world", a.average_travel_time, tot / (len(done) * r.dn))
        if all(r.free[r.od[n]] < math.inf for n in done):
            delay = sum(r.tt[n] - r.free[r.od[n]] for n in done) * r.dn
            num("total_delay", "world", a.total_delay, delay, 1e-7)
            num("average_delay", "world", a.average_delay, delay / (len(done) * r.dn), 1e-7)
    else:
        num("total_travel_time", "world", a.total_travel_time, -1)
        num("average_travel_time", "world", a.average_travel_time, -1)
    for k, v in (("total_trips", a.trip_all), ("completed_trips", a.trip_completed), ("total_travel_time", a.total_travel_time), ("average_travel_time", a.average_travel_time),
                 ("total_delay", a.total_delay), ("average_delay", a.average_delay)):
        num("basic table " + k, "world", df[0][k], v)


def check_link(W, r):
    df = W.analyzer.link_to_pandas().to_dict("records")
    if [x["link"] for x in df] != [l.name for l in W.LINKS]:
        fail("link table lists %s" % [x["link"] for x in df], "rows")
    for x, l in zip(df, W.LINKS):
        w = "link " + l.name
        if (x["start_node"], x["end_node"]) != (l.start_node.name, l.end_node.name):
            fail("%s is reported to lead %s-%s" % (w, x["start_node"], x["end_node"]))
        num("traffic_volume", w, x["traffic_volume"], r.dep[l.name])
        num("vehicles_remain", w, x["vehicles_remain"], r.arr[l.name] - r.dep[l.name])
        num("free_travel_time", w, x["free_travel_time"], l.length / l.u)
        num("length", w, x["length"], l.length)
        if r.dep[l.name]:
            c = r.curve[l.name]
            if min(c) > 0 and not r.amb[l.name]:
                num("average_travel_time", w, x["average_travel_time"], mean(c), 1e-7)
                num("stddiv_travel_time", w, x["stddiv_travel_time"], std(c), 1e-5)
        else:
            num("average_travel_time", w, x["average_travel_time"], -1)
            num("stddiv_travel_time", w, x["stddiv_travel_time"], -1)
        num("delay_ratio", w, x["delay_ratio"], x["average_travel_time"] / x["free_travel_time"])


def check_trip(W, r):
    df = W.analyzer.vehicle_trip_to_pandas().to_dict("records")
    if [x["name"] for x in df] != list(r.state):
        fail("trip table lists %s" % [x["name"] for x in df], "rows")
    for x in df:
        n, v = x["name"], W.VEHICLES[x["name"]]
        w = "vehicle " + n
        if (x["orig"], x["dest"]) != r.od[n]:
            fail("%s is reported with trip %s-%s" % (w, x["orig"], x["dest"]))
        if x["final_state"] != r.state[n]:
            fail("%s: final state %s, it is in state %s" % (w, x["final_state"], r.state[n]), "final_state")
        num("departure_time", w, x["departure_time"], int(v.departure_time) * r.dt)
        num("travel_time", w, x["travel_time"], r.tt[n])
        num("distance_traveled", w, x["distance_traveled"], r.dist[n], 1e-7)
        sp = [a for a, st in zip(v.log_v, v.log_state) if st == "run"]
        num("average_speed", w, x["average_speed"], mean(sp) if sp else float("nan"), 1e-7)


def check_vehicles(W, r):
    df = W.analyzer.vehicles_to_pandas()
    cols = ["name", "dn", "orig", "dest", "t", "link", "x", "s", "v"]
    if list(df.columns) != cols:
        fail("vehicle table has columns %s" % list(df.columns))
    want = []
    for n, v in W.VEHICLES.items():
        for T, sn in enumerate(r.tr):
            # a row per step: the state before the movement of that step, i.e. after the transfers
            pass
        for t, st, l, x, sp, vv in zip(v.log_t, v.log_state, v.log_link, v.log_x, v.log_s, v.log_v):
            if st == "home":
                continue
            ln = {"wait": "waiting_at_origin_node", "end": "trip_end", "abort": "trip_aborted"}.get(st) or l.name
            want.append((n, r.dn, r.od[n][0], r.od[n][1], t, ln, x, sp, vv))
    got = list(df.itertuples(index=False, name=None))
    if len(got) != len(want):
        fail("vehicle table has %d rows, the vehicles recorded %d" % (len(got), len(want)), "rows")
    for a, b in zip(got, want):
        if a[:4] != b[:4] or a[5] != b[5] or any(float(p) != float(q) for p, q in zip((a[4],) + a[6:], (b[4],) + b[6:])):
            fail("vehicle table row %s, the vehicle recorded %s" % (a, b), "vehicles")
    # every vehicle has one row per step on the road
    seen = {}
    for a in got:
        if a[5] not in ("waiting_at_origin_node", "trip_end", "trip_aborted"):
            seen.setdefault((a[0], a[5]), []).append(round(a[4] / r.dt))
    for n, vs in r.vis.items():
        want = {}
        for x in vs:
            # rows are written before the movement of a step; a trip that ends in the transfer phase writes none for its last step
            want.setdefault(x.link, []).append((x.tin, x.tout if x.tout is not None else len(r.tr)))
        for l, iv in want.items():
            ts = seen.get((n, l), [])
            for t0, t1 in iv:
                have = [t for t in ts if t0 <= t < t1]
                if have != list(range(t0, t1)):
                    fail("vehicle %s was on link %s in steps %d..%d, the vehicle table has it there in steps %s" % (n, l, t0, t1 - 1, have), "vehicles")


def check_gps(W, r):
    df = W.analyzer.gps_like_log_to_pandas().to_dict("records")
    want = []
    for n, v in W.VEHICLES.items():
        for t, st, l, x, vv in zip(v.log_t, v.log_state, v.log_link, v.log_x, v.log_v):
            if st == "run":
                a, b = l.start_node, l.end_node
                q = x / l.length
                want.append((n, t, a.x + q * (b.x - a.x), a.y + q * (b.y - a.y), vv))
    got = [(x["name"], x["t"], x["x"], x["y"], x["v"]) for x in df]
    off = [w for w in want if (w[2], w[3]) == (-1, -1)]
    if len(got) != len(want) and not off:
        fail("gps table has %d rows, the vehicles were on the road in %d records" % (len(got), len(want)), "gps")
    for g, w in zip(got, want):
        if off:
            break
        if g[0] != w[0] or any(not close(float(p), float(q), 1e-9) for p, q in zip(g[1:], w[1:])):
            fail("gps table row %s, recorded %s" % (g, w), "gps")


def check_cumulative(W, r):
    df = W.analyzer.link_cumulative_to_pandas().to_dict("records")
    N = W.TSIZE
    if len(df) != N * len(W.LINKS):
        fail("cumulative table has %d rows for %d links and %d steps" % (len(df), len(W.LINKS), N), "rows")
    A = {l.name: [0] * N for l in W.LINKS}
    D = {l.name: [0] * N for l in W.LINKS}
    for vs in r.vis.values():
        for x in vs:
            for k in range(x.tin, N):
                A[x.link][k] += r.dn
            if x.tout is not None:
                for k in range(x.tout, N):
                    D[x.link][k] += r.dn
    for i, x in enumerate(df):
        l, k = W.LINKS[i // N].name, i % N
        if x["link"] != l or not close(float(x["t"]), k * r.dt):
            fail("cumulative table row %d is for link %s at %s" % (i, x["link"], x["t"]), "rows")
        num("arrival_count", "link %s at step %d" % (l, k), x["arrival_count"], A[l][k])
        num("departure_count", "link %s at step %d" % (l, k), x["departure_count"], D[l][k])
        if not r.amb[l]:
            num("actual_travel_time", "link %s at step %d" % (l, k), x["actual_travel_time"], r.curve[l][k])


def area_of(W, case):
    out = []
    for a in case["areas"]:
        s = []
        for i in a:
            n = W.NODES[i % len(W.NODES)]
            if n.name not in s:
                s.append(n.name)
        out.append(s)
    return out


def check_areas2areas(W, r, case):
    areas = area_of(W, case)
    names = ["A%d" % i for i in range(len(areas))]
    arg = [[W.get_node(n) if (i + k) % 2 else n for k, n in enumerate(a)] for i, a in enumerate(areas)]
    df = W.analyzer.areas2areas_to_pandas(arg, names if case["named"] else None).to_dict("records")
    if not case["named"]:
        names = ["area %d including %s" % (i, a[0]) for i, a in enumerate(areas)]
    rows = {(x["origin_area"], x["destination_area"]): x for x in df}
    n = 0
    for i, A in enumerate(areas):
        for j, B in enumerate(areas):
            vs = [v for v in r.od if r.od[v][0] in A and r.od[v][1] in B]
            k = (names[i], names[j])
            if not vs:
                if k in rows:
                    fail("area table lists %s without trips" % (k,), "rows")
                continue
            n += 1
            if k not in rows:
                fail("area table misses %s" % (k,), "rows")
            x, w = rows[k], "areas %s-%s" % k
            done = [v for v in vs if r.state[v] == "end"]
            num("total_trips", w, x["total_trips"], len(vs) * r.dn)
            num("completed_trips", w, x["completed_trips"], len(done) * r.dn)
            if done:
                num("average_travel_time", w, x["average_travel_time"], mean([r.tt[v] for v in done]))
                num("average_distance_traveled", w, x["average_distance_traveled"], mean([r.dist[v] for v in vs]), 1e-7)
                if all(r.free[r.od[v]] < math.inf for v in done):
                    num("average_free_travel_time", w, x["average_free_travel_time"], mean([r.free[r.od[v]] for v in done]), 1e-7)
            if all(r.short[r.od[v]] < math.inf for v in vs):
                num("average_shortest_distance", w, x["average_shortest_distance"], mean([r.short[r.od[v]] for v in vs]), 1e-7)
    if len(df) != n:
        fail("area table has %d rows for %d pairs of areas with trips" % (len(df), n), "rows")


def check_area(W, r, case):
    areas = area_of(W, case)
    names = ["A%d" % i for i in range(len(areas))]
    df = W.analyzer.area_to_pandas(areas, names, border_include=case["border"]).to_dict("records")
    if [x["area"] for x in df] != names:
        fail("area table lists %s" % [x["area"] for x in df], "rows")
    lt = {x["link"]: x for x in W.analyzer.link_to_pandas().to_dict("records")}
    for x, A in zip(df, areas):
        w = "area %s" % A
        ls = []
        for l in W.LINKS:
            a, b = l.start_node.name in A, l.end_node.name in A
            if (a or b) if case["border"] else (a and b):
                ls.append(l)
        ns = {l.name for l in ls}
        num("n_links", w, x["n_links"], len(ls))
        used = [n for n, vs in r.vis.items() if any(v.link in ns and (v.tin < len(r.tr)) for v in vs)]
        num("traffic_volume", w, x["traffic_volume"], len(used) * r.dn)
        num("vehicles_remain", w, x["vehicles_remain"], sum(r.arr[n] - r.dep[n] for n in ns))
        if not used:
            continue
        through = {l.name: r.dep[l.name] for l in ls}
        tt = sum(lt[n]["average_travel_time"] * through[n] for n in ns)
        num("total_travel_time", w, x["total_travel_time"], tt, 1e-7)
        if tt > 0:
            num("average_speed", w, x["average_speed"], sum(l.length * through[l.name] for l in ls) / tt, 1e-7)
            num("average_delay", w, x["average_delay"], max(tt / sum(l.length / l.u * through[l.name] for l in ls) - 1, 0), 1e-7)
        num("vehicle_density", w, x["vehicle_density"], len(used) * r.dn / sum(l.length for l in ls), 1e-7)


def check_groups(W, r, case):
    vs = list(W.VEHICLES.values())
    g = [[] for _ in range(case["ngroups"])]
    for i, v in enumerate(vs):
        g[(i * case["gmul"]) % len(g)].append(v)
    g = [x for x in g if x]
    names = ["G%d" % i for i in range(len(g))] if case["named"] else None
    df = W.analyzer.vehicle_groups_to_pandas(g, names).to_dict("records")
    if len(df) != len(g) or (names and [x["group"] for x in df] != names) or len({x["group"] for x in df}) != len(g):
        fail("group table lists %s" % [x["group"] for x in df], "rows")
    for x, vs in zip(df, g):
        w = "group %s" % x["group"]
        ns = [v.name for v in vs]
        done = [n for n in ns if r.state[n] == "end"]
        num("total_trips", w, x["total_trips"], len(ns))
        num("completed_trips", w, x["completed_trips"], len(done))
        if not done or any(not 0 < r.free[r.od[n]] < math.inf or r.tt[n] == 0 for n in done):
            continue
        num("average_travel_time", w, x["average_travel_time"], mean([r.tt[n] for n in done]), 1e-7)
        num("average_traveled_distance", w, x["average_traveled_distance"], mean([r.dist[n] for n in done]), 1e-7)
        for c, f in (("delay_ratio", lambda n: r.tt[n] / r.free[r.od[n]]), ("detour_ratio", lambda n: r.dist[n] / r.short[r.od[n]]), ("speed", lambda n: r.dist[n] / r.tt[n])):
            num("average_" + c, w, x["average_" + c], mean([f(n) for n in done]), 1e-7)
            num("std_" + c, w, x["std_" + c], std([f(n) for n in done]), 1e-5)


REPORTS = ["od", "basic", "link", "trip", "vehicles", "gps", "cumulative", "areas2areas", "area", "groups"]


def reports(W, r, case, order, final):
    for q in order:
        f = globals()["check_" + q]
        if q == "cumulative" and not final:
            continue
        if q in ("areas2areas", "area", "groups"):
            f(W, r, case)
        else:
            f(W, r)


def make(cpp):
    def check(case):
        from vlib import env
        ux = env.setup(cpp=cpp)
        spec = case["spec"]
        W = scen.build(ux, spec, cpp=cpp)
        scen.finalize(W)
        N, dt = W.TSIZE, W.DELTAT
        if N < 1 or not W.VEHICLES:
            raise Skip("empty")
        u0 = {l.name: l.u for l in W.LINKS}
        ev = {}
        for e in case["ops"]:
            ev.setdefault(e["T"], []).append(e["op"])
        stop = max(1, int(case["stop"] * N))
        tr = []
        nt = False
        for T in range(N):
            for op in ev.get(T, []):
                ops.apply(W, op, cpp)
            W.exec_simulation(duration_t2=dt)
            tr.append(scen.snap(W, cpp, T))
            if T + 1 in (stop, N):
                r = Recount.__new__(Recount)
                r.u0 = u0
                r.__init__(W, tr)
                # several trips ending on a link in one step: which of them writes the curve last is not observable
                r.amb = {l.name: False for l in W.LINKS}
                seen = {}
                for vs in r.vis.values():
                    for x in vs:
                        if x.tout is not None:
                            k = (x.link, x.tout + (x.exit != "transfer"))
                            if k in seen:
                                r.amb[x.link] = True
                            seen[k] = 1
                reports(W, r, case, case["order"] + case["again"], T + 1 == N)
                st = list(r.state.values())
                nt = nt or (len(set(r.od.values())) > 1 and "end" in st and any(s in ("run", "abort", "wait") for s in st))
        st = list(r.state.values())
        return Info(nt, [s for s in ("end", "abort", "run", "wait") if s in st] + (["added later"] if any(len(v.log_t) and v.log_t[0] > 0 for v in W.VEHICLES.values()) else []))
    return check


def strat(**opt):
    def s():
        from hypothesis import strategies as st
        return st.fixed_dictionaries({
            "spec": scen.scenario_strategy(**opt), "ops": ops.s_timed(40, kinds=["cap_in", "cap_out", "ffs", "demand", "vehicle", "vehicle"], max_size=3),
            "stop": st.floats(0.125, 1.0, width=16), "order": st.permutations(REPORTS), "again": st.lists(st.sampled_from(REPORTS), max_size=4),
            "areas": st.lists(st.lists(st.integers(0, 8), min_size=1, max_size=4), min_size=1, max_size=3), "named": st.booleans(), "border": st.booleans(),
            "ngroups": st.integers(1, 4), "gmul": st.integers(1, 5)})
    return s


OPT = dict(max_steps=50, max_platoons=30, min_platoons=3, zero_caps=True, unreachable=True, parallel=True)
PARTS = [
    Part("python", strat(**OPT), make(False), 500, 12000),
    Part("cpp", strat(**OPT), make(True), 500, 12000, engine="cpp"),
]
