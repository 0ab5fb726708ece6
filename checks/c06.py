"""C06: demand definitions against an independent count of the trips they must generate, per definition and OD pair."""
import math, warnings
from vlib.core import Part, Info, fail, close, Skip
from vlib import scen, trace

CPP = True
RULE = ("random grids/digraphs with demand given by every definition method (pair, coordinates, area, node lists, both variants, explicit vehicles), "
        "by flow or volume, with and without attribute, some added during the run; non-trivial: at least two definitions generated trips")
BUDGET = {"quick": 200, "thorough": 3000}


def steps_of(t, dt):
    """Acceptable time step indices of a time in seconds (both neighbours when the quotient is within rounding of an integer)."""
    q = t / dt
    r = round(q)
    if abs(q - r) < 1e-9 * max(1, abs(q)):
        return {int(r), int(r) - 1} if q < r else {int(r)}
    return {int(q)}


def near(nodes, x, y):
    d = {n["name"]: math.hypot(n["x"] - x, n["y"] - y) for n in nodes}
    m = min(d.values())
    return {k for k, v in d.items() if v <= m + 1e-9}


def area(nodes, x, y, r):
    return [n["name"] for n in nodes if math.hypot(n["x"] - x, n["y"] - y) < r]


def call(W, d, nodes, by_object, attr):
    kw = {}
    if "flow" in d:
        kw["flow"] = d["flow"]
    if "volume" in d:
        kw["volume"] = d["volume"]
    if attr is not None:
        kw["attribute"] = attr
    ob = (lambda n: W.get_node(n)) if by_object else (lambda n: n)
    k = d["kind"]
    t0, t1 = d["t0"], d["t1"]
    nm = lambda i: nodes[i % len(nodes)]["name"]
    xy = lambda p: (nodes[p[0] % len(nodes)]["x"] + p[1], nodes[p[0] % len(nodes)]["y"] + p[2])
    if k == "pair":
        W.adddemand(ob(nm(d["o"])), ob(nm(d["d"])), t0, t1, **kw)
    elif k == "point":
        W.adddemand_point2point(*xy(d["po"]), *xy(d["pd"]), t0, t1, **kw)
    elif k in ("area", "area2"):
        f = W.adddemand_area2area if k == "area" else W.adddemand_area2area2
        f(*xy(d["po"]), d["ro"], *xy(d["pd"]), d["rd"], t0, t1, **kw)
    elif k in ("nodes", "nodes2"):
        f = W.adddemand_nodes2nodes if k == "nodes" else W.adddemand_nodes2nodes2
        f([ob(nm(i)) for i in d["os"]], [ob(nm(i)) for i in d["ds"]], t0, t1, **kw)
    elif k == "vehicle":
        if d["in_steps"]:
            W.addVehicle(ob(nm(d["o"])), ob(nm(d["d"])), int(t0 / W.DELTAT), departure_time_is_time_step=1, attribute=attr)
        else:
            W.addVehicle(ob(nm(d["o"])), ob(nm(d["d"])), t0, attribute=attr)


def allowed(d, nodes, outs, ins):
    """(origins, destinations): node names, or None if this call is outside the documented use."""
    nm = lambda i: nodes[i % len(nodes)]["name"]
    xy = lambda p: (nodes[p[0] % len(nodes)]["x"] + p[1], nodes[p[0] % len(nodes)]["y"] + p[2])
    k = d["kind"]
    if k in ("pair", "vehicle"):
        return [nm(d["o"])], [nm(d["d"])]
    if k == "point":
        a, b = near(nodes, *xy(d["po"])), near(nodes, *xy(d["pd"]))
        return (list(a), list(b)) if len(a) == len(b) == 1 else None
    if k in ("area", "area2"):
        a, b = area(nodes, *xy(d["po"]), d["ro"]), area(nodes, *xy(d["pd"]), d["rd"])
        a, b = [n for n in a if outs.get(n)], [n for n in b if ins.get(n)]
        a, b = a or list(near(nodes, *xy(d["po"]))), b or list(near(nodes, *xy(d["pd"])))
        if not area(nodes, *xy(d["po"]), d["ro"]) and len(a) > 1 or not area(nodes, *xy(d["pd"]), d["rd"]) and len(b) > 1:
            return None
    else:
        a, b = [nm(i) for i in d["os"] if outs.get(nm(i))], [nm(i) for i in d["ds"] if ins.get(nm(i))]
    if not a or not b:
        return None
    if k in ("area2", "nodes2") and any(set(b) == {o} for o in a):
        return None     # the only destination is the origin itself
    return a, b


def verify(W, d, od, vehs, T0, attr, tags):
    dt, dn = W.DELTAT, W.DELTAN
    k = d["kind"]
    O, D = od
    tags.add(k)
    for v in vehs:
        if v.orig.name not in O or v.dest.name not in D:
            fail("%s: a trip from %s to %s, allowed %s -> %s" % (d, v.orig.name, v.dest.name, O, D))
        if v.attribute != attr:
            fail("%s: a trip has attribute %r, given %r" % (d, v.attribute, attr))
        if k in ("area2", "nodes2") and v.orig is v.dest:
            fail("%s: a trip from %s to itself" % (d, v.orig.name))
    if k == "vehicle":
        if len(vehs) != 1 or vehs[0].departure_time not in (steps_of(d["t0"], dt) | {int(d["t0"] / dt)}):
            fail("%s: %d vehicles, departing at %s" % (d, len(vehs), [v.departure_time for v in vehs]))
        return
    T = d["t1"] - d["t0"]
    rate = d["volume"] / T if d.get("volume", -1) > 0 else d.get("flow", -1)
    if rate <= 0:
        if vehs:
            fail("%s: no demand, but %d vehicles" % (d, len(vehs)))
        return
    S0, S1 = steps_of(d["t0"], dt), steps_of(d["t1"], dt)
    a, b = min(S0), max(S1)
    deps = sorted(v.departure_time for v in vehs)
    for x in deps:
        if x < a or x > b or (x >= b and k in ("pair", "point", "area", "nodes")):
            fail("%s: a departure at step %s (%s s), outside the period" % (d, x, x * dt))
    if k in ("area2", "nodes2"):
        total = rate * T
        if abs(len(vehs) * dn - total) > dn * (1 + 1e-9):
            fail("%s: %d vehicles of %s generated for a demand of %s" % (d, len(vehs), dn, total))
        for s in range(a, b + 1):
            n = sum(x <= s for x in deps)
            el = min(T, (s + 1) * dt - d["t0"])
            if abs(n * dn - rate * el) > 2 * dn + rate * dt + 1e-6:
                fail("%s: %s vehicles departed until step %d, rate times elapsed time is %s" % (d, n * dn, s, rate * el))
        return
    # multiplicity of pairs (the same node may be listed twice)
    mult = {}
    for o in O:
        for e in D:
            mult[o, e] = mult.get((o, e), 0) + 1
    q = rate / (len(O) * len(D))
    per = {p: [] for p in mult}
    for v in vehs:
        per[v.orig.name, v.dest.name].append(v.departure_time)
    for p, deps in per.items():
        ok = False
        for s0 in S0:
            for s1 in S1:
                err = None
                if any(x < s0 or x >= s1 for x in deps):
                    err = "a departure outside steps [%d,%d): %s" % (s0, s1, sorted(deps))
                cum = {}
                for x in deps:
                    cum[x] = cum.get(x, 0) + 1
                n = 0
                for s in range(s0, s1):
                    n += cum.get(s, 0)
                    gap = n * dn - mult[p] * q * dt * (s - s0 + 1)
                    if gap > 1e-6 * dn or gap < -mult[p] * dn * (1 + 1e-6):
                        err = "%s vehicles departed until step %d, rate times elapsed time is %s" % (n * dn, s, mult[p] * q * dt * (s - s0 + 1))
                        break
                ok = ok or err is None
        if not ok:
            fail("%s for %s -> %s: %s" % (d, p[0], p[1], err))


def make(cpp):
    def check(case):
        from vlib import env
        ux = env.setup(cpp=cpp)
        spec = case["spec"]
        nodes = spec["nodes"]
        outs, ins = {}, {}
        for l in spec["links"]:
            outs[l["start"]] = outs.get(l["start"], 0) + 1
            ins[l["end"]] = ins.get(l["end"], 0) + 1
        tags = set()
        W = scen.new_world(ux, spec, cpp=cpp)
        scen.add_network(W, spec)
        ndef = [0]
        tadd = {}

        def add(d, T):
            od = allowed(d, nodes, outs, ins)
            if od is None or not (outs.get(od[0][0]) or d["kind"] not in ("pair", "vehicle", "point")):
                return
            if d["kind"] in ("pair", "point", "vehicle") and not outs.get(od[0][0]):
                return
            before = len(W.VEHICLES)
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                call(W, d, nodes, d["by_object"], d.get("attr"))
            new = list(W.VEHICLES.values())[before:]
            verify(W, d, od, new, T, d.get("attr"), tags)
            for v in new:
                tadd[v.name] = T
            ndef[0] += bool(new)
        late = {}
        for d in case["demands"]:
            if d.get("at"):
                late.setdefault(d["at"], []).append(d)
            else:
                add(d, 0)
        if case["auto_tmax"]:
            W.TMAX = None
            scen.finalize(W)
            if W.VEHICLES and (max(v.departure_time for v in W.VEHICLES.values()) * W.DELTAT >= W.TMAX or W.TMAX < 3600 or W.TMAX % 1800):
                fail("automatic horizon %s, last departure %s" % (W.TMAX, max(v.departure_time for v in W.VEHICLES.values()) * W.DELTAT))
            return Info(ndef[0] >= 2, sorted(tags | {"automatic horizon"}))
        n0 = list(W.VEHICLES)
        tr = scen.run_traced(W, cpp, lambda W, T: [add(d, T) for d in late.get(T, [])])
        for n in n0:
            if n not in W.VEHICLES:
                fail("vehicle %s vanished" % n)
        if not tr:
            return Info(False)
        vis = trace.visits(W, tr)
        # order of entry at each origin, and immediate entry when nothing is in the way
        per = {}
        for i, (n, v) in enumerate(W.VEHICLES.items()):
            first = next((s.T for s in tr if n in s.vehs), None)
            if first is None:
                if max(v.departure_time, tadd[n]) <= tr[-1].T:
                    fail("vehicle %s (departure step %s) had not departed by step %s" % (n, v.departure_time, tr[-1].T))
                continue
            if first != max(v.departure_time, tadd[n]):
                fail("vehicle %s departs at step %s (defined at %s), it left home in step %s" % (n, v.departure_time, tadd[n], first))
            per.setdefault(v.orig.name, []).append((first, i, n))
        L = {l["name"]: l for l in spec["links"]}
        prompt = 0
        for o, q in per.items():
            q.sort()
            last = None
            seen_wait = False
            for (f, i, n) in q:
                tin = vis[n][0].tin if vis[n] else None
                if tin is not None and (seen_wait or (last is not None and tin < last)):
                    fail("vehicle %s entered at step %s from %s, before a vehicle that departed earlier" % (n, tin, o))
                if tin is None:
                    seen_wait = True
                else:
                    last = tin
            ol = [l for l in spec["links"] if l["start"] == o]
            node = W.get_node(o)
            if node.flow_capacity not in (None, -1) or not ol:
                continue
            for j, (f, i, n) in enumerate(q):
                if f + 1 > tr[-1].T:
                    continue
                s = tr[f]
                if sum(1 for (f2, i2, n2) in q if n2 in s.vehs and s.vehs[n2][0] == "wait") != 1:
                    continue
                free = True
                for l in ol:
                    lk = W.get_link(l["name"])
                    if s.links[l["name"]][3] < W.DELTAN:
                        free = False
                    for m, w in s.vehs.items():
                        if w[1] == l["name"] and w[2] < lk.delta_per_lane * W.DELTAN * 1.000001:
                            free = False
                # nobody may come in from elsewhere first
                if free and not any(w[0] == "run" and W.get_link(w[1]).end_node is node for w in s.vehs.values()):
                    prompt += 1
                    if not vis[n] or vis[n][0].tin != f + 1:
                        fail("vehicle %s departed at step %d from %s with nothing in its way, but entered at step %s" % (n, f, o, vis[n] and vis[n][0].tin))
        if prompt:
            tags.add("prompt entry")
        return Info(ndef[0] >= 2 and prompt, sorted(tags))
    return check


def demand_strategy(dt, dn, tmax):
    """One demand definition of any kind."""
    from hypothesis import strategies as st
    fl = st.sampled_from([0, 0.4, -0.4, 0.9, 10, -3.3])
    pt = st.tuples(st.integers(0, 8), fl, fl).map(list)
    rad = st.sampled_from([0.5, 1.2, 1.5, 3, 0.01])
    lst = st.lists(st.integers(0, 8), min_size=1, max_size=4)

    @st.composite
    def dem(draw):
        k = draw(st.sampled_from(["pair", "point", "area", "nodes", "area2", "nodes2", "vehicle"]))
        t0 = draw(st.sampled_from([0, dt, 2.5 * dt, round(tmax * 0.21, 2), round(tmax * 0.5, 1), 7.3]))
        T = draw(st.sampled_from([round(tmax * 0.3, 2), 3 * dt, round(tmax * 0.7, 1), dt * 10, 0.5 * dt, dt]))
        d = {"kind": k, "t0": t0, "t1": round(t0 + T, 6), "by_object": draw(st.booleans())}
        if d["t1"] <= d["t0"]:
            d["t1"] = d["t0"] + dt
        if k in ("pair", "vehicle"):
            d["o"], d["d"] = draw(st.integers(0, 8)), draw(st.integers(0, 8))
            d["in_steps"] = draw(st.booleans())
        elif k in ("point", "area", "area2"):
            d["po"], d["pd"] = draw(pt), draw(pt)
            if k != "point":
                d["ro"], d["rd"] = draw(rad), draw(rad)
        else:
            d["os"], d["ds"] = draw(lst), draw(lst)
        pl = draw(st.sampled_from([1, 2, 5, 10, 20, 33, 0.4, 0]))
        if draw(st.booleans()):
            d["volume"] = round(pl * dn * draw(st.sampled_from([1, 1, 1.3])), 3)
            if d["volume"] == 0 and k in ("area2", "nodes2"):
                d["volume"] = dn
        else:
            d["flow"] = round(pl * dn / (d["t1"] - d["t0"]), 5) if draw(st.booleans()) else draw(st.sampled_from([0.2, 0.5, 0.1, 0.37]))
        if draw(st.integers(0, 2)) == 0:
            d["attr"] = draw(st.sampled_from(["x", 7, "truck"]))
        if draw(st.integers(0, 4)) == 0:
            d["at"] = draw(st.integers(1, 20))
        return d
    return dem()


def strategy():
    from hypothesis import strategies as st

    @st.composite
    def gen(draw):
        spec = draw(scen.scenario_strategy(max_platoons=1, vehicles=False, zero_caps=False, nodecaps=True, kinds=["grid", "ring", "random", "cross", "corridor", "tworoute"]))
        spec["demands"] = []
        dt = spec["W"]["deltan"] * spec["W"]["reaction_time"]
        return {"spec": spec, "demands": draw(st.lists(demand_strategy(dt, spec["W"]["deltan"], spec["W"]["tmax"]), min_size=1, max_size=6)),
                "auto_tmax": draw(st.integers(0, 9)) == 0}
    return gen()


PARTS = [
    Part("python", strategy, make(False), 2500, 40000),
    Part("cpp", strategy, make(True), 2500, 40000, engine="cpp"),
]
