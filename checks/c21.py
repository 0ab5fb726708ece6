"""C21: every vehicle held back at a link end or at its origin has one of the stated causes; merges follow priorities."""
from vlib.core import Part, Info, fail, Skip
from vlib import scen, trace

CPP = True
RULE = ("random scenarios with merges, signals, capacities, priorities; every front vehicle of every link and origin queue that did not pass in a "
        "step is explained; non-trivial: at least one held vehicle was explained by room, capacity or competition; share cases: 60+ contested choices")
BUDGET = {"quick": 200, "thorough": 3000}
FAR = 10 ** 9


def check_history(W, tr, cpp, spec):
    dt, dn = W.DELTAT, W.DELTAN
    L = {l.name: l for l in W.LINKS}
    N = {n.name: n for n in W.NODES}
    vis = trace.visits(W, tr)
    idx = {n: i for i, n in enumerate(W.VEHICLES)}
    wait_since = {}
    for s in tr:
        for n, v in s.vehs.items():
            if v[0] == "wait" and n not in wait_since:
                wait_since[n] = s.T
    gen, tra = {}, {}           # (T, link) -> visits entering
    outs = {}                   # (T, link) -> visits leaving by transfer
    for vs in vis.values():
        for x in vs:
            (gen if x.prev is None else tra).setdefault((x.tin, x.link), []).append(x)
            if x.exit == "transfer":
                outs.setdefault((x.tout, x.link), []).append(x)
    nsig = {n["name"]: len(n.get("signal", [0])) for n in spec["nodes"]}
    reasons = {}
    for k in range(1, len(tr)):
        p, s = tr[k - 1], tr[k]
        T = s.T
        here = {}
        for n, v in p.vehs.items():
            if v[1] is not None:
                here.setdefault(v[1], []).append(n)

        tin = {}
        for n in p.vehs:
            if p.vehs[n][1] is not None:
                x = next(x for x in vis[n] if x.tin <= p.T and (x.tout is None or x.tout > p.T))
                tin[n] = x.tin
        order = {}
        for l, ns in here.items():
            if cpp:
                order[l] = sorted(ns, key=lambda n: (tin[n], -p.vehs[n][2]))
            else:
                order[l] = list(p.links[l][0])

        def room_lacking(o, entered, spacing):
            """No room on link o once `entered` platoons came in during this step."""
            lanes = o.number_of_lanes
            if entered >= lanes:
                return True
            ns = order.get(o.name, [])
            i = lanes - entered
            if len(ns) < i:
                return False
            if cpp:
                # same-step entrants have no exposed order: any of those tied with the i-th from the tail
                t = tin[ns[-i]]
                cand = [n for n in ns if tin[n] == t]
            else:
                cand = [ns[-i]]
            return any(p.vehs[n][2] <= spacing + 1e-9 for n in cand)

        # --- link ends
        cands = {}
        for l, ns in order.items():
            lk = L[l]
            if cpp:
                t0 = tin[ns[0]]
                front = [n for n in ns if tin[n] == t0]
                if len(front) > 1:
                    continue
            f = ns[0]
            v = p.vehs[f]
            if v[2] < lk.length or W.VEHICLES[f].dest is lk.end_node or v[5] is None:
                continue
            moved = s.vehs[f][1] != l
            cands[l] = (f, v[5], moved)
        for l, (f, want, moved) in cands.items():
            if moved:
                continue
            lk, o = L[l], L[want]
            nd = lk.end_node.name
            if s.vehs[f][0] != "run":
                fail("T=%d: vehicle %s vanished at the end of link %s" % (T, f, l))
            if nsig[nd] > 1 and s.nodes[nd][0] not in lk.signal_group:
                reasons["red"] = reasons.get("red", 0) + 1
                continue
            if s.links[l][4] < dn or s.links[want][3] < dn or s.nodes[nd][2] < dn:
                reasons["capacity"] = reasons.get("capacity", 0) + 1
                continue
            nt, ng = len(tra.get((T, want), [])), len(gen.get((T, want), []))
            if nt >= o.number_of_lanes:
                reasons["competition"] = reasons.get("competition", 0) + 1
                continue
            if room_lacking(o, nt + ng, o.delta_per_lane * dn):
                reasons["room"] = reasons.get("room", 0) + 1
                continue
            fail("T=%d: vehicle %s stands first at the end of link %s wanting %s and was not let through: phase %s of groups %s, outflow left %s, "
                 "inflow left %s, node left %s, %d+%d entered, %d vehicles on %s: %s" % (
                     T, f, l, want, s.nodes[nd][0], lk.signal_group, s.links[l][4], s.links[want][3], s.nodes[nd][2], nt, ng,
                     len(order.get(want, [])), want, [(n, p.vehs[n][2]) for n in order.get(want, [])][-4:]), "held")
        # --- priorities among competitors
        for (tt, want), xs in tra.items():
            if tt != T:
                continue
            for x in xs:
                for l, (f, w2, moved) in cands.items():
                    if w2 != want or moved or l == x.prev:
                        continue
                    lk = L[l]
                    nd = lk.end_node.name
                    if nsig[nd] > 1 and s.nodes[nd][0] not in lk.signal_group:
                        continue
                    if s.links[l][4] < dn:
                        continue
                    pa, pb = L[x.prev].merge_priority, lk.merge_priority
                    reasons["contest"] = reasons.get("contest", 0) + 1
                    if W.hard_deterministic_mode:
                        if pb > pa:
                            fail("T=%d: vehicle %s from %s (priority %s) went to %s before %s from %s (priority %s), deterministic mode" % (
                                T, x.veh, x.prev, pa, want, f, l, pb))
                    elif pa == 0 and pb > 0:
                        fail("T=%d: vehicle %s from zero-priority link %s went to %s while %s waited on %s with priority %s" % (
                            T, x.veh, x.prev, want, f, l, pb))
        # --- origin queues
        for nd, node in N.items():
            q = [n for n, v in p.vehs.items() if v[0] == "wait" and W.VEHICLES[n].orig is node]
            if not q or not node.outlinks:
                continue
            q.sort(key=lambda n: (wait_since[n], idx[n]))
            f = q[0]
            if s.vehs[f][0] != "wait":
                continue
            ol = list(node.outlinks.values())
            r = spec_route.get(f)
            if r:
                ol = [L[r[0]]]
            blocked = []
            for o in ol:
                nt, ng = len(tra.get((T, o.name), [])), len(gen.get((T, o.name), []))
                rem = s.links[o.name][3] + dn * nt
                blocked.append(rem < dn or room_lacking(o, ng, o.delta_per_lane * dn))
            ngen = sum(len(gen.get((T, o.name), [])) for o in node.outlinks.values())
            if ngen >= sum(o.number_of_lanes for o in node.outlinks.values()):
                continue
            if any(blocked):
                reasons["origin"] = reasons.get("origin", 0) + 1
            else:
                fail("T=%d: vehicle %s is first in the origin queue of %s and was not let onto %s: inflow left %s, vehicles %s" % (
                    T, f, nd, [o.name for o in ol], [s.links[o.name][3] for o in ol],
                    [[(n, p.vehs[n][2]) for n in order.get(o.name, [])][-3:] for o in ol]), "held-origin")
    return reasons


spec_route = {}


def make(cpp):
    def check(spec):
        from vlib import env
        ux = env.setup(cpp=cpp)
        W = scen.build(ux, spec, cpp=cpp)
        spec_route.clear()
        n0 = len(W.VEHICLES) - len(spec["vehicles"])
        for i, v in enumerate(spec["vehicles"]):
            if v.get("route"):
                spec_route[list(W.VEHICLES)[n0 + i]] = v["route"]
        tr = scen.run_traced(W, cpp)
        r = check_history(W, tr, cpp, spec)
        return Info(any(r.get(k) for k in ("room", "capacity", "competition", "contest")), list(r))
    return check


# ------------------------------------------------------------------ shares at a saturated merge

def make_share(cpp):
    def check(c):
        from vlib import env
        ux = env.setup(cpp=cpp)
        dn, rt = 5, 1
        W = ux.World("", cpp=cpp, deltan=dn, reaction_time=rt, tmax=c["steps"] * dn * rt, random_seed=c["seed"], **scen.QUIET)
        dt = W.DELTAT
        for n in ("A", "B", "M", "E"):
            W.addNode(n, 0, 0)
        W.addLink("a", "A", "M", 500, merge_priority=c["pa"], free_flow_speed=20)
        W.addLink("b", "B", "M", 500, merge_priority=c["pb"], free_flow_speed=20)
        W.addLink("o", "M", "E", 500, capacity_in=c["cap"], free_flow_speed=20)
        W.adddemand("A", "E", 0, W.TMAX, 0.7)
        W.adddemand("B", "E", 0, W.TMAX, 0.7)
        tr = scen.run_traced(W, cpp)
        vis = trace.visits(W, tr)
        ent = {}
        for vs in vis.values():
            for x in vs:
                if x.link == "o":
                    ent.setdefault(x.tin, []).append(x.prev)
        n = na = 0
        for k in range(1, len(tr)):
            p = tr[k - 1]
            f = {l: any(v[1] == l and v[2] >= 500 for v in p.vehs.values()) for l in "ab"}
            e = ent.get(tr[k].T, [])
            if f["a"] and f["b"] and len(e) == 1:
                n += 1
                na += e[0] == "a"
        if n < 60:
            return Info(False)
        pa, pb = c["pa"], c["pb"]
        q = 0.5 if pa + pb == 0 else pa / (pa + pb)
        sd = (n * q * (1 - q)) ** 0.5
        if abs(na - n * q) > 5.5 * sd + 1e-9:
            fail("priorities %s:%s, of %d contested places %d went to the first link (expected %.1f, sd %.2f)" % (pa, pb, n, na, n * q, sd))
        return Info(True, ["share"])
    return check


def share_strategy():
    from hypothesis import strategies as st
    return st.fixed_dictionaries({"pa": st.sampled_from([1, 2, 0.5, 3, 0, 9]), "pb": st.sampled_from([1, 2, 0.5, 0, 4]),
                                  "cap": st.sampled_from([0.3, 0.45, 0.6]), "steps": st.integers(250, 600), "seed": st.integers(0, 10 ** 6)})


S = lambda: scen.scenario_strategy(min_platoons=8)
M = lambda: scen.scenario_strategy(kinds=["merge", "grid", "cross", "tworoute"], min_platoons=20, max_platoons=100, max_steps=70)
PARTS = [
    Part("python", S, make(False), 1200, 30000),
    Part("cpp", S, make(True), 1200, 30000, engine="cpp"),
    Part("merge-python", M, make(False), 800, 20000),
    Part("merge-cpp", M, make(True), 800, 20000, engine="cpp"),
    Part("share-python", share_strategy, make_share(False), 48, 1600),
    Part("share-cpp", share_strategy, make_share(True), 80, 1600, engine="cpp"),
]
