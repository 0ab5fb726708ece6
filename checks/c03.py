"""C03: flow capacities over every time interval (maximum-subarray search over the recorded step counts), and full use of a bottleneck."""
from vlib.core import Part, Info, fail, Skip
from vlib import scen, trace

CPP = True
RULE = ("random scenarios with link inflow/outflow and node capacities (also changed during the run, also zero), both engines, every time "
        "window of every link and node; constructed bottlenecks for the rate; non-trivial: a limited element was actually used by 3+ platoons")
BUDGET = {"quick": 200, "thorough": 3000}


def worst_window(counts, caps, dn, dt):
    """Largest value of sum(count*dn - cap*dt) over all windows, and that window."""
    best, cur, start, win = 0.0, 0.0, 0, None
    for i, (c, q) in enumerate(zip(counts, caps)):
        if cur <= 0:
            cur, start = 0.0, i
        cur += c * dn - q * dt
        if cur > best:
            best, win = cur, (start, i)
    return best, win


def flows(W, tr):
    n = len(tr)
    ent = {l.name: [0] * n for l in W.LINKS}
    out = {l.name: [0] * n for l in W.LINKS}
    cross = {x.name: [0] * n for x in W.NODES}
    endn = {l.name: l.end_node.name for l in W.LINKS}
    vis = trace.visits(W, tr)
    for vs in vis.values():
        for x in vs:
            ent[x.link][x.tin] += 1
            if x.exit == "transfer":
                out[x.link][x.tout] += 1
                cross[endn[x.link]][x.tout] += 1
    return ent, out, cross, vis


def judge(what, counts, caps, dn, dt, lanes):
    allow = max(caps) * dt + dn * lanes
    b, win = worst_window(counts, caps, dn, dt)
    if b > allow + 1e-6 * max(1, allow):
        i, j = win
        fail("%s: %d platoons of %s in steps %d..%d, the capacity allows %.4f vehicles there (+%.4f allowance)" % (
            what, sum(counts[i:j + 1]), dn, i, j, sum(caps[i:j + 1]) * dt, allow))
    if max(caps) == 0 and sum(counts):
        fail("%s: %d platoons passed although its capacity is zero" % (what, sum(counts)))


def link_caps(spec_link, W, what):
    l = next(x for x in W.LINKS if x.name == spec_link["name"])
    c = spec_link.get(what)
    return float(c) if c is not None else None


def make(cpp):
    def check(case):
        from vlib import env
        ux = env.setup(cpp=cpp)
        spec = case["spec"]
        W = scen.build(ux, spec, cpp=cpp)
        scen.finalize(W)
        links = {l.name: l for l in W.LINKS}
        ci = {l["name"]: l.get("capacity_in") for l in spec["links"]}
        co = {l["name"]: l.get("capacity_out") for l in spec["links"]}
        cn = {n["name"]: n.get("flow_capacity") for n in spec["nodes"]}
        if spec["W"].get("adjust_node_capacity"):
            for n in W.NODES:
                if cn[n.name] is None and n.inlinks and n.outlinks:
                    cn[n.name] = (max(l.capacity for l in n.inlinks.values()) + max(l.capacity for l in n.outlinks.values())) / 2
        for l in links:
            if ci[l] is None: ci[l] = 2 * links[l].capacity
            if co[l] is None: co[l] = 2 * links[l].capacity
        hist = []
        ev = {}
        for c in case.get("changes", []):
            ev.setdefault(c["T"], []).append(c)
        nch = [0]

        def on_step(W, T):
            for c in ev.get(T, []):
                nch[0] += 1
                if c["what"] == "node":
                    ns = [n for n in W.NODES if cn[n.name] is not None]
                    if ns:
                        n = ns[c["i"] % len(ns)]
                        n.flow_capacity = c["v"]
                        if cpp:
                            n._cpp_node.flow_capacity = float(c["v"])
                        cn[n.name] = c["v"]
                else:
                    l = W.LINKS[c["i"] % len(W.LINKS)]
                    if c["what"] == "in":
                        l.capacity_in = ci[l.name] = c["v"]
                    else:
                        l.capacity_out = co[l.name] = c["v"]
            hist.append((dict(ci), dict(co), dict(cn)))
        tr = scen.run_traced(W, cpp, on_step)
        ent, out, cross, vis = flows(W, tr)
        dn, dt = W.DELTAN, W.DELTAT
        used = 0
        for l in W.LINKS:
            judge("inflow of link " + l.name, ent[l.name], [h[0][l.name] for h in hist], dn, dt, l.number_of_lanes)
            judge("outflow of link " + l.name, out[l.name], [h[1][l.name] for h in hist], dn, dt, l.number_of_lanes)
            s = next(x for x in spec["links"] if x["name"] == l.name)
            if s.get("capacity_in") is not None: used = max(used, sum(ent[l.name]))
            if s.get("capacity_out") is not None: used = max(used, sum(out[l.name]))
        for n in W.NODES:
            if hist[0][2][n.name] is not None:
                s = next(x for x in spec["nodes"] if x["name"] == n.name)
                lanes = s.get("number_of_lanes") if s.get("number_of_lanes") and s.get("flow_capacity") is not None else n.number_of_lanes
                judge("flow through node " + n.name, cross[n.name], [h[2][n.name] for h in hist], dn, dt, lanes or 1)
                used = max(used, sum(cross[n.name]))
        tags = []
        if nch[0]: tags.append("changed")
        return Info(used >= 3, tags)
    return check


def zero_strategy():
    from hypothesis import strategies as st
    return st.fixed_dictionaries({
        "spec": scen.scenario_strategy(min_platoons=8, zero_caps=True),
        "changes": st.one_of(st.just([]), st.lists(st.fixed_dictionaries({
            "T": st.integers(1, 70), "what": st.sampled_from(["in", "out", "node"]), "i": st.integers(0, 20),
            "v": st.sampled_from([0, 0.1, 0.3, 0.6, 1.5])}), min_size=1, max_size=5))})


# ------------------------------------------------------------------ a bottleneck is fully used

def make_rate(cpp):
    def check(c):
        from vlib import env
        ux = env.setup(cpp=cpp)
        W = ux.World("", cpp=cpp, deltan=c["dn"], reaction_time=c["rt"], tmax=c["steps"] * c["dn"] * c["rt"], random_seed=c["seed"],
                     hard_deterministic_mode=c["det"], **scen.QUIET)
        dt, dn = W.DELTAT, c["dn"]
        cap = c["frac"] * dn / dt
        kw = dict(free_flow_speed=c["u"], jam_density_per_lane=c["k"])
        nmid = {"flow_capacity": cap, "number_of_lanes": c["nl"]} if c["where"] == "node" else {}
        W.addNode("A", 0, 0)
        W.addNode("B", 1, 0, **nmid)
        W.addNode("C", 2, 0)
        W.addLink("L1", "A", "B", c["u"] * dt * c["n1"], number_of_lanes=c["lanes1"], **kw, **({"capacity_out": cap} if c["where"] == "out" else {}))
        W.addLink("L2", "B", "C", c["u"] * dt * c["n2"], number_of_lanes=c["lanes2"], **kw, **({"capacity_in": cap} if c["where"] == "in" else {}))
        cap0 = W.LINKS[0].capacity / c["lanes1"]
        if cap > 0.75 * min(cap0, W.LINKS[1].capacity):
            raise Skip("not a bottleneck")
        W.adddemand("A", "C", 0, W.TMAX * 0.8, min(W.LINKS[0].capacity * 1.2, 1.6 * cap + 2 * dn / W.TMAX))
        tr = scen.run_traced(W, cpp)
        ent, out, cross, vis = flows(W, tr)
        length = W.LINKS[0].length
        # steps in which, at the beginning, a vehicle stands at the end of L1
        ready = []
        for k in range(len(tr)):
            p = tr[k - 1] if k else None
            ready.append(p is not None and any(v[1] == "L1" and v[2] >= length - 1e-9 for v in p.vehs.values()))
        lanes_b = {"in": c["lanes2"], "out": c["lanes1"], "node": c["nl"]}[c["where"]]
        best = 0
        i = 0
        while i < len(ready):
            if not ready[i]:
                i += 1
                continue
            j = i
            while j < len(ready) and ready[j]:
                j += 1
            n = j - i
            got = sum(out["L1"][i:j]) * dn
            need = cap * n * dt - dn
            if got < need - 1e-6 * max(1, need):
                fail("capacity %.6g (%s), a vehicle was ready in every step %d..%d, but only %s vehicles passed; the capacity carries %.4f (-%s)" % (
                    cap, c["where"], i, j - 1, got, cap * n * dt, dn))
            best = max(best, sum(out["L1"][i:j]))
            i = j
        return Info(best >= 5, [c["where"]])
    return check


def rate_strategy():
    from hypothesis import strategies as st
    return st.fixed_dictionaries({
        "dn": st.sampled_from([1, 2, 5, 10]), "rt": st.sampled_from([1, 2, 0.5]), "steps": st.integers(40, 140), "seed": st.integers(0, 999),
        "det": st.booleans(), "u": st.sampled_from([10, 20, 30]), "k": st.sampled_from([0.2, 0.15, 0.1]),
        "n1": st.sampled_from([3, 5, 8]), "n2": st.sampled_from([3, 4, 10]), "lanes1": st.integers(1, 3), "lanes2": st.integers(1, 3),
        "nl": st.integers(1, 3), "where": st.sampled_from(["in", "out", "node"]),
        "frac": st.sampled_from([0.1, 0.25, 0.3, 0.45, 0.5, 0.6, 1 / 3])})


PARTS = [
    Part("python", zero_strategy, make(False), 2500, 50000),
    Part("cpp", zero_strategy, make(True), 2500, 50000, engine="cpp"),
    Part("rate-python", rate_strategy, make_rate(False), 500, 8000),
    Part("rate-cpp", rate_strategy, make_rate(True), 500, 8000, engine="cpp"),
]
