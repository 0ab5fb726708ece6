"""C01: conservation of vehicles and agreement of all counts (invariants over the step-by-step history)."""
from vlib.core import Part, Info, fail, close
from vlib import scen

CPP = True
RULE = ("random scenarios (corridor, merge, diverge, intersection, grid, ring, random digraph; signals, capacities, lanes, tolls, "
        "explicit vehicles, unreachable destinations), observed after every time step; non-trivial: at least 5 platoons entered and "
        "at least one link-to-link transfer or two vehicles on one link at once")
BUDGET = {"quick": 200, "thorough": 3000}

ORDER = {"home": 0, "wait": 1, "run": 2, "end": 3, "abort": 3}


def check_trace(W, tr, spec, cpp):
    dn = W.DELTAN
    nveh = len(W.VEHICLES)
    names = list(W.VEHICLES)
    if len(set(names)) != nveh or any(W.VEHICLES[n].name != n for n in names):
        fail("vehicle registry is inconsistent")
    prev = {n: "home" for n in names}
    prevlink = {n: None for n in names}
    pA = {l.name: 0.0 for l in W.LINKS}
    pD = {l.name: 0.0 for l in W.LINKS}
    starts = {l.name: l.start_node.name for l in W.LINKS}
    multi = transfers = 0
    maxon = 0
    for s in tr:
        seen_home = set(s.home)
        if len(s.home) + len(s.vehs) != nveh:
            fail("T=%d: %d vehicles listed, %d expected" % (s.T, len(s.home) + len(s.vehs), nveh))
        on = {l: [] for l in pA}
        for n in names:
            if n in seen_home:
                if prev[n] != "home":
                    fail("T=%d: vehicle %s went back from %s to home" % (s.T, n, prev[n]))
                continue
            st, lk, x, v, lane, nx = s.vehs[n]
            if st not in ORDER or ORDER[st] < ORDER[prev[n]] or (ORDER[prev[n]] == 3 and st != prev[n]):
                fail("T=%d: vehicle %s went from %s to %s" % (s.T, n, prev[n], st))
            if (st == "run") != (lk is not None):
                fail("T=%d: vehicle %s is in state %s with link %s" % (s.T, n, st, lk))
            if lk is not None:
                on[lk].append(n)
                if prevlink[n] is not None and prevlink[n] != lk:
                    transfers += 1
            prevlink[n] = lk
            prev[n] = st
        nrun = 0
        for l, (vs, A, D, ci, co) in s.links.items():
            if not cpp and (len(set(vs)) != len(vs) or set(vs) != set(on[l])):
                fail("T=%d link %s: vehicle list %s but vehicles located there are %s" % (s.T, l, list(vs), on[l]))
            if A < pA[l] - 1e-9 or D < pD[l] - 1e-9:
                fail("T=%d link %s: cumulative count decreased (%s->%s, %s->%s)" % (s.T, l, pA[l], A, pD[l], D))
            for c, p in ((A, pA[l]), (D, pD[l])):
                q = (c - p) / dn
                if abs(q - round(q)) > 1e-6:
                    fail("T=%d link %s: count moved by %s, not in whole platoons of %s" % (s.T, l, c - p, dn))
            if not close(A - D, dn * len(on[l]), 1e-7):
                fail("T=%d link %s: arrivals-departures=%s but %d platoons (x%s) are on it" % (s.T, l, A - D, len(on[l]), dn))
            pA[l], pD[l] = A, D
            nrun += len(on[l])
            maxon = max(maxon, len(on[l]))
        if not cpp:
            q = [x for n in s.nodes.values() for x in n[1]]
            waiting = [n for n, v in s.vehs.items() if v[0] == "wait"]
            if sorted(q) != sorted(waiting):
                fail("T=%d: origin queues hold %s but waiting vehicles are %s" % (s.T, q, waiting))
            for nd, (ph, que, _) in s.nodes.items():
                for x in que:
                    if W.VEHICLES[x].orig.name != nd:
                        fail("T=%d: vehicle %s queued at %s, its origin is %s" % (s.T, x, nd, W.VEHICLES[x].orig.name))
    # totals against the vehicles' own passage records
    ent = {l: 0 for l in pA}
    lv = {l: 0 for l in pA}
    for n, v in W.VEHICLES.items():
        ls = [l.name for t, l in v.log_t_link if not isinstance(l, (str, int))]
        for i, l in enumerate(ls):
            ent[l] += 1
            if i < len(ls) - 1 or v.state in ("end", "abort"):
                lv[l] += 1
    for l in W.LINKS:
        A, D = pA[l.name], pD[l.name]
        if not close(A, dn * ent[l.name], 1e-7) or not close(D, dn * lv[l.name], 1e-7):
            fail("link %s: cumulative counts %s/%s, vehicles recorded %d entries and %d exits (x%s)" % (l.name, A, D, ent[l.name], lv[l.name], dn))
    return transfers, maxon, sum(ent.values())


def queries(W, s, cpp):
    """Count queries offered to the user, evaluated between steps."""
    dn = W.DELTAN
    on = {l.name: [] for l in W.LINKS}
    for n, v in s.vehs.items():
        if v[1] is not None:
            on[v[1]].append(v)
    for l in W.LINKS:
        k = len(on[l.name])
        if not close(l.num_vehicles, dn * k, 1e-7):
            fail("T=%d link %s: num_vehicles=%s, %d platoons of %s are there" % (s.T, l.name, l.num_vehicles, k, dn))
        q = sum(1 for v in on[l.name] if v[3] < l.u)
        if not close(l.num_vehicles_queue, dn * q, 1e-7):
            fail("T=%d link %s: num_vehicles_queue=%s, %d queued platoons of %s" % (s.T, l.name, l.num_vehicles_queue, q, dn))
        if not close(l.density * l.length, dn * k, 1e-7):
            fail("T=%d link %s: density*length=%s for %d platoons" % (s.T, l.name, l.density * l.length, k))
    run = {n for n, v in s.vehs.items() if v[0] == "run"}
    liv = set(s.home) | {n for n, v in s.vehs.items() if v[0] in ("wait", "run")}
    if set(W.VEHICLES_RUNNING) != run:
        fail("T=%d: VEHICLES_RUNNING differs from the running vehicles" % s.T)
    if set(W.VEHICLES_LIVING) != liv:
        fail("T=%d: VEHICLES_LIVING differs from the living vehicles" % s.T)


def make(cpp):
    def check(spec):
        from vlib import env
        ux = env.setup(cpp=cpp)
        W = scen.build(ux, spec, cpp=cpp)
        scen.finalize(W)
        tr = []
        while W.check_simulation_ongoing():
            T = W.T
            W.exec_simulation(duration_t2=W.DELTAT * 1.0000001)
            tr.append(scen.snap(W, cpp, T))
            if T % 4 == 0:
                queries(W, tr[-1], cpp)
        transfers, maxon, entered = check_trace(W, tr, spec, cpp)
        b = W.analyzer.basic_to_pandas()
        nend = sum(1 for v in W.VEHICLES.values() if v.state == "end")
        if len(W.VEHICLES):
            tot, comp = float(b["total_trips"].iloc[0]), float(b["completed_trips"].iloc[0])
            if not close(tot, W.DELTAN * len(W.VEHICLES)) or not close(comp, W.DELTAN * nend):
                fail("basic statistics report %s trips, %s completed; the vehicles are %d of which %d ended (x%s)" % (
                    tot, comp, len(W.VEHICLES), nend, W.DELTAN))
            if cpp:
                c = W._cpp_world
                c.print_simple_results()
                if not close(c.trips_total, W.DELTAN * len(W.VEHICLES)):
                    fail("engine trips_total=%s, vehicles %d x %s" % (c.trips_total, len(W.VEHICLES), W.DELTAN))
                if not close(c.trips_completed, W.DELTAN * nend):
                    fail("engine trips_completed=%s, %d vehicles completed x %s" % (c.trips_completed, nend, W.DELTAN))
        tags = []
        if transfers: tags.append("transfer")
        if maxon > 1: tags.append("platoons share a link")
        if any(v.state == "abort" for v in W.VEHICLES.values()): tags.append("abort")
        if any(v.state in ("run", "wait") for v in W.VEHICLES.values()): tags.append("unfinished")
        if any(l.number_of_lanes > 1 for l in W.LINKS): tags.append("multilane")
        return Info(entered >= 5 and (transfers or maxon > 1), tags)
    return check


PARTS = [
    Part("python", lambda: scen.scenario_strategy(), make(False), 4000, 80000),
    Part("cpp", lambda: scen.scenario_strategy(), make(True), 4000, 80000, engine="cpp"),
]
