"""C23: causality. Worlds equal up to step K evolve equally up to K; interventions act at once and only from then on."""
import copy, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
from vlib.core import Part, Info, fail, Skip, close
from vlib import scen, ops
from vlib.digest import digest, diff

CPP = True
RULE = ("two worlds with the same scenario and the same interventions before step K; from K on one of them has other demand, tolls, horizon or interventions; all records of the first K steps are compared. "
        "Second part: one intervention at step K, its effect observed in the very next steps; non-trivial: vehicles were on the road at step K and the two futures really differ (part future), or the intervention met traffic (part effect)")
BUDGET = {"quick": 200, "thorough": 3000}
ASSUMPTIONS = ["in the Python engine's random mode the two worlds declare the same number of vehicles before the run (see known finding: vehicle colours are drawn from the simulation's generator)"]


def add_future(W, spec, items, K, alt):
    """Explicit vehicles departing at step K or later; alt selects the variation."""
    c = ops.pairs(W)
    if not c:
        return 0
    n = 0
    for it in items:
        o, d = c[(it["od"] + (it["dod"] if alt else 0)) % len(c)]
        t = K + it["t"] + (it["dt"] if alt else 0)
        W.addVehicle(o, d, t, departure_time_is_time_step=1)
        n += 1
    return n


def spec_with_toll(spec, K, dt, tolls, alt):
    s = copy.deepcopy(spec)
    if not alt:
        return s, {}
    late = {}
    for t in tolls:
        l = s["links"][t["i"] % len(s["links"])]
        late[l["name"]] = t["v"]
    return s, late


def make_toll_late(base, t0, v):
    f = scen.make_toll(base) or (lambda t: 0)
    return lambda t: f(t) + (v if t >= t0 else 0)


def build(ux, case, K, cpp, alt):
    spec = case["spec"]
    over = {}
    dt = spec["W"]["deltan"] * spec["W"]["reaction_time"]
    if alt and case["tmax"] is not None:
        over["tmax"] = max((K + 1) * dt, spec["W"]["tmax"] + case["tmax"] * dt)
    W = scen.new_world(ux, spec, cpp=cpp, **over)
    s, late = spec_with_toll(spec, K, dt, case["tolls"], alt)
    scen.add_network(W, s)
    # tolls differing only from step K on: the base world gets the unchanged one through the same kind of object
    for l in W.LINKS:
        if l.name in late:
            base = next(x for x in spec["links"] if x["name"] == l.name).get("toll")
            l.congestion_pricing = make_toll_late(base, K * dt, late[l.name])
    scen.add_demand(W, s)
    add_future(W, s, case["future"], K, alt)
    nshared = len(W.VEHICLES)
    if alt and (cpp or spec["W"]["hard_deterministic_mode"] or case.get("count")):
        c = ops.pairs(W)
        for it in case["extra"]:
            if c:
                o, d = c[it["od"] % len(c)]
                W.addVehicle(o, d, K + it["t"], departure_time_is_time_step=1)
        if case["extra_demand"] and c:
            o, d = c[case["extra_demand"]["od"] % len(c)]
            W.adddemand(o, d, (K + case["extra_demand"]["t"]) * dt, (K + case["extra_demand"]["t"] + 10) * dt, flow=0.4)
    return W, nshared


def restrict(d, names):
    """Vehicles as a list: automatic names depend on how many others there are."""
    return dict(d, veh=[d["veh"][n] for n in names])


def make_future(cpp, key="future"):
    def check(case):
        from vlib import env
        ux = env.setup(cpp=cpp)
        spec = case["spec"]
        dt = spec["W"]["deltan"] * spec["W"]["reaction_time"]
        N = int(spec["W"]["tmax"] / dt)
        if N < 4:
            raise Skip("too short")
        K = 2 + case["K"] % (N - 3)
        out = []
        road = 0
        for alt in (0, 1):
            W, ns = build(ux, case, K, cpp, alt)
            names = list(W.VEHICLES)
            dep = {n: v.departure_time for n, v in W.VEHICLES.items()}
            ev = [e for e in case["common"] if e["T"] < K]
            ops.run_events(W, cpp, ev, upto=K, ignore=set(names[ns:]))
            W.exec_simulation(duration_t2=(K - W.T) * dt) if W.T < K else None
            names = names[:ns] + [n for n in W.VEHICLES if n not in dep]      # vehicles added by common interventions
            if not cpp:
                road = max(road, len(W.VEHICLES_RUNNING))
            else:
                road = max(road, sum(1 for v in W.VEHICLES.values() if v.state == "run"))
            now = digest(W, cpp, upto=K)
            if alt:
                act = []
                for e in case["late"]:
                    T = K + e["T"]
                    if T >= W.TSIZE:
                        continue
                    if T > W.T:
                        W.exec_simulation(duration_t2=(T - W.T) * dt)
                    if T == W.T and ops.apply(W, e["op"], cpp):
                        act.append(e["op"]["k"])
            if W.T < W.TSIZE:
                W.exec_simulation()
            full = digest(W, cpp, upto=K)
            # 1. what was recorded is not rewritten later
            d = diff(restrict(now, names), restrict(full, names))
            if d:
                fail("records of the first %d steps, read at step %d | at the end: %s" % (K, K, d), key + "-rewrite")
            out.append((full, names, dep, W))
        (a, na, da, A), (b, nb, db, B) = out
        if len(na) != len(nb):
            fail("the same calls before step %d made %d | %d vehicles" % (K, len(na), len(nb)), key)
        trip = lambda W, n: (W.VEHICLES[n].departure_time, W.VEHICLES[n].orig.name, W.VEHICLES[n].dest.name)
        fut = [i for i in range(len(na)) if trip(A, na[i]) != trip(B, nb[i])]
        for d, ns, W, keep in ((a, na, A, [na[i] for i in fut]), (b, nb, B, [nb[i] for i in fut] + [n for n in B.VEHICLES if n not in nb])):
            for n in keep:   # vehicles of the differing future: nothing may have happened to them before K
                if any(x != "home" for x in d["veh"][n]["log_state"]):
                    fail("vehicle %s departing at step %d or later has left home before" % (n, K), key)
        ks = [i for i in range(len(na)) if i not in fut]
        d = diff(restrict(a, [na[i] for i in ks]), restrict(b, [nb[i] for i in ks]))
        if d:
            fail("K=%d of %d and %d: %s" % (K, A.TSIZE, B.TSIZE, d), key)
        differ = bool(fut) or len(A.VEHICLES) != len(B.VEHICLES) or A.TSIZE != B.TSIZE or bool(case["tolls"]) or bool(act)
        return Info(road > 0 and differ, sorted(set(act)) + ["tmax"] * (A.TSIZE != B.TSIZE) + ["demand"] * bool(fut or len(A.VEHICLES) != len(B.VEHICLES)) + ["toll"] * bool(case["tolls"]))
    return check


def make_effect(cpp):
    def check(case):
        from vlib import env
        ux = env.setup(cpp=cpp)
        spec = case["spec"]
        W = scen.build(ux, spec, cpp=cpp)
        scen.finalize(W)
        dt, dn, N = W.DELTAT, W.DELTAN, W.TSIZE
        if N < 6:
            raise Skip("too short")
        K = 2 + case["K"] % (N - 5)
        W.exec_simulation(duration_t2=K * dt)
        s0 = scen.snap(W, cpp, K - 1)
        k, i, x, n = case["op"]["k"], case["op"]["i"], case["op"]["x"], case["op"]["n"]
        links = {l.name: l for l in W.LINKS}
        busy = sorted({v[1] for v in s0.vehs.values() if v[0] == "run"})
        l = links[busy[i % len(busy)]] if busy else W.LINKS[i % len(W.LINKS)]
        met = bool(busy)
        watch = []
        old = dict(W.VEHICLES)
        if k == "cap_in":
            l.capacity_in = 0
        elif k == "cap_out":
            l.capacity_out = 0
        elif k == "node_cap":
            c = [m for m in W.NODES if m.flow_capacity is not None]
            if not c:
                raise Skip("no node with capacity")
            m = c[i % len(c)]
            m.flow_capacity = 0
            watch = [m.name]
        elif k == "ffs":
            l.change_free_flow_speed(4.0 + 30 * x)
        elif k == "lots":
            pass
        elif k in ("vehicle", "demand"):
            c = ops.pairs(W)
            if not c:
                raise Skip("no pair")
            o, d = c[i % len(c)]
            if k == "vehicle":
                W.addVehicle(o, d, K + n, departure_time_is_time_step=1)
                want = [K + n]
            else:
                q = 3 + n
                W.adddemand(o, d, (K + n) * dt, (K + n + q) * dt, flow=dn / dt / 2)
                want = None
            new = {v: W.VEHICLES[v] for v in W.VEHICLES if v not in old}
            got = sorted(int(round(v.departure_time_in_second / dt)) if cpp else v.departure_time for v in new.values())
            if want is not None and got != want:
                fail("vehicle added at step %d for step %d departs at steps %s" % (K, K + n, got), "effect-added")
            if want is None:
                if not (q // 2 <= len(got) <= (q + 1) // 2) or any(g < K + n or g >= K + n + q for g in got):
                    fail("demand added at step %d for steps %d to %d (half a platoon per step) departs at %s" % (K, K + n, K + n + q, got), "effect-added")
            for v in new.values():
                if v.state != "home" or v.orig.name != o or v.dest.name != d:
                    fail("added vehicle %s is %s, %s->%s" % (v.name, v.state, v.orig.name, v.dest.name), "effect-added")
        prev, entered, left, crossed = s0, 0, 0, 0
        ins = {m.name: {y.name for y in m.inlinks.values()} for m in W.NODES}
        outs = {m.name: {y.name for y in m.outlinks.values()} for m in W.NODES}
        stuck = 0
        for T in range(K, min(N, K + 10)):
            W.exec_simulation(duration_t2=dt)
            s = scen.snap(W, cpp, T)
            if k in ("vehicle", "demand"):
                for name, v in new.items():
                    dep = int(round(v.departure_time_in_second / dt)) if cpp else v.departure_time
                    home = name in s.home
                    if home != (T < dep):
                        fail("added vehicle %s departing at step %d is %s home at the end of step %d" % (name, dep, "at" if home else "not at", T), "effect-added")
            for name, v in s.vehs.items():
                p = prev.vehs.get(name)
                pl = p[1] if p else None
                if v[0] == "run" and v[1] != pl:
                    if k == "cap_in" and v[1] == l.name:
                        entered += dn
                    if k == "cap_out" and pl == l.name:
                        left += dn
                    if watch and pl in ins[watch[0]] and v[1] in outs[watch[0]]:
                        crossed += dn
                if k == "ffs" and T == K and v[0] == "run" and v[1] == l.name and pl == l.name:
                    # first of its lane: it travels at the new speed at once
                    lead = [q for q in prev.vehs.values() if q[0] == "run" and q[1] == l.name and q[4] == v[4] and q[2] > p[2]]
                    if not lead and all(q[2] < p[2] or q is p for q in prev.vehs.values() if q[0] == "run" and q[1] == l.name):
                        want = min(p[2] + l.u * dt, l.length)
                        stuck += 1
                        if not close(v[2], want, 1e-9) and prev.vehs[name][2] < l.length:
                            fail("T=%d: first vehicle %s moved from %s to %s on link %s with new speed %s (step %s)" % (T, name, p[2], v[2], l.name, l.u, dt), "effect-ffs")
            prev = s
        if k == "cap_in" and entered > max(0, s0.links[l.name][3]) + 1e-9:
            fail("capacity_in of %s set to 0 at step %d with %s left: %d vehicles entered" % (l.name, K, s0.links[l.name][3], entered), "effect-cap")
        if k == "cap_out" and left > max(0, s0.links[l.name][4]) + 1e-9:
            fail("capacity_out of %s set to 0 at step %d with %s left: %d vehicles left" % (l.name, K, s0.links[l.name][4], left), "effect-cap")
        if watch and crossed > max(0, s0.nodes[watch[0]][2]) + 1e-9:
            fail("flow_capacity of %s set to 0 at step %d with %s left: %d vehicles crossed" % (watch[0], K, s0.nodes[watch[0]][2], crossed), "effect-cap")
        return Info(met and (k != "ffs" or stuck), [k])
    return check


def s_future(det=None, count=False, **opt):
    def s():
        from hypothesis import strategies as st
        it = st.fixed_dictionaries({"od": st.integers(0, 11), "dod": st.integers(0, 5), "t": st.integers(0, 9), "dt": st.integers(0, 5)})
        return st.fixed_dictionaries({
            "spec": scen.scenario_strategy(max_steps=60, max_platoons=35, zero_caps=True, det=det, **opt), "K": st.integers(0, 60),
            "common": ops.s_timed(40, max_size=3), "late": ops.s_timed(8, max_size=3),
            "future": st.lists(it, max_size=3), "extra": st.lists(it, min_size=1 if count else 0, max_size=2), "extra_demand": st.one_of(st.none(), it),
            "tolls": st.lists(st.fixed_dictionaries({"i": st.integers(0, 11), "v": st.sampled_from([100, 1000, 3.5])}), max_size=2),
            "tmax": st.one_of(st.none(), st.integers(-20, 40)), **({"count": st.just(True)} if count else {})})
    return s


def s_effect():
    from hypothesis import strategies as st
    op = st.fixed_dictionaries({"k": st.sampled_from(["cap_in", "cap_out", "node_cap", "ffs", "ffs", "vehicle", "demand"]), "i": st.integers(0, 11), "x": st.sampled_from([0.1, 0.5, 1.0]), "n": st.integers(0, 5)})
    return st.fixed_dictionaries({"spec": scen.scenario_strategy(max_steps=60, max_platoons=35), "K": st.integers(0, 60), "op": op})


PARTS = [
    Part("future-python", s_future(), make_future(False), 1000, 25000),
    Part("future-cpp", s_future(), make_future(True), 2000, 60000, engine="cpp"),
    Part("effect-python", s_effect, make_effect(False), 500, 15000),
    Part("effect-cpp", s_effect, make_effect(True), 800, 30000, engine="cpp"),
    Part("colours", s_future(det=False, count=True), make_future(False, "python-colours"), 60, 500, shrink=False),
]
