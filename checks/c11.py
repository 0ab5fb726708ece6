"""C11: simulated cumulative curves against a kinematic-wave (link transmission) solution computed independently."""
import os, sys, math
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
from vlib.core import Part, Info, fail, Skip
from vlib import scen

CPP = True
RULE = ("corridors, merges and diverges with random lengths, speeds, jam densities, lane counts, bottlenecks (slow links, capacity_in, capacity_out, node capacities, signals) and piecewise-constant demand, simulated with platoon size n and n/2 in both engines; "
        "cumulative arrivals and departures of every link are compared over the whole run with a link-transmission solution of the same network on a ten times finer grid; non-trivial: the solution has a queue (vehicles delayed by more than two steps)")
BUDGET = {"quick": 200, "thorough": 3000}
ASSUMPTIONS = ["links are at least two simulation steps of free-flow travel long and have room for four platoons per lane", "tolerance in time and count proportional to the step and platoon size (stated in TOL)", "flow budgets (capacity_in, capacity_out, node capacity) are clear bottlenecks, one per node and not at signals, since the code documents a discretisation loss when they interact", "at merges of two queued links the shares are random; their single curves get a tolerance for that randomness"]

SUB = 10


class Ltm:
    """Link transmission model. links: name -> dict(a, b, L, u, w, kap, cap, cin, cout); commodities = destinations (sinks); node caps; green(link, t)."""
    def __init__(s, links, order, nodecap, dest_of, rt, demand, green, prio, dt, T):
        s.links, s.dt = links, dt
        n = int(T / dt) + 2
        s.n = n
        dests = sorted({d for o in demand for d in demand[o]})
        s.dests = dests
        s.A = {l: [0.0] * n for l in links}
        s.D = {l: [0.0] * n for l in links}
        s.Ad = {l: {d: [0.0] * n for d in dests} for l in links}
        ins, outs = {}, {}
        for l, p in links.items():
            ins.setdefault(p["b"], []).append(l)
            outs.setdefault(p["a"], []).append(l)
        nodes = sorted({p["a"] for p in links.values()} | {p["b"] for p in links.values()})
        # origin queues: per destination cumulative demand, FIFO in total
        s.Q = {o: {d: [0.0] * n for d in dests} for o in demand}
        for o in demand:
            for d in demand[o]:
                for i in range(n):              # (from, to, amount): evenly spread
                    s.Q[o][d][i] = sum(q * min(1.0, max(0.0, (i * dt - a) / (b - a))) for a, b, q in demand[o][d])
        s.Qout = {o: [0.0] * n for o in demand}
        caprem = {}
        for i in range(1, n):
            t = i * dt
            send, recv = {}, {}
            for l, p in links.items():
                S = s.at(s.A[l], t - p["L"] / p["u"]) - s.D[l][i - 1]
                c = p["cap"] * dt
                if p["cout"] is not None and outs.get(p["b"]):
                    c = min(c, p["cout"] * dt)
                if not green(l, t) and outs.get(p["b"]):
                    c = 0.0
                send[l] = max(0.0, min(S, c))
                R = s.at(s.D[l], t - p["L"] / p["w"]) + p["kap"] * p["L"] - s.A[l][i - 1]
                c = p["cap"] * dt
                if p["cin"] is not None:
                    c = min(c, p["cin"] * dt)
                recv[l] = max(0.0, min(R, c))
            for l in links:
                s.A[l][i], s.D[l][i] = s.A[l][i - 1], s.D[l][i - 1]
                for d in dests:
                    s.Ad[l][d][i] = s.Ad[l][d][i - 1]
            for v in nodes:
                src = [(l, send[l]) for l in ins.get(v, [])]
                org = v in demand
                if not outs.get(v):
                    for l, q in src:            # destination: leaves freely
                        s.D[l][i] += q
                    continue
                if org:
                    tot = sum(s.Q[v][d][i] for d in dests)
                    src.append((None, tot - s.Qout[v][i - 1]))
                if not src:
                    continue
                outl = outs[v]
                # composition of what each source would send
                comp = {}
                for l, q in src:
                    comp[l] = s.comp(l, v, q, i, rt)
                flow = {l: q for l, q in src}
                nc = nodecap.get(v)
                if nc is not None and len(ins.get(v, [])):
                    tot = sum(q for l, q in src if l is not None)
                    if tot > nc * dt:
                        f = nc * dt / tot
                        for l, q in src:
                            if l is not None:
                                flow[l] = q * f
                if len(src) > 1:                # merge (one outlink)
                    R = recv[outl[0]]
                    if nc is not None:
                        R = min(R, nc * dt)
                    P = sum(prio[l] for l, q in src) or 1.0
                    rem, act = R, [l for l, q in src]
                    res = {l: 0.0 for l in act}
                    want = dict(src)
                    while act and rem > 1e-12:
                        P = sum(prio[l] for l in act)
                        sat = [l for l in act if want[l] - res[l] <= rem * (prio[l] / P if P else 1 / len(act)) + 1e-12]
                        if not sat:
                            for l in act:
                                res[l] += rem * (prio[l] / P if P else 1 / len(act))
                            break
                        for l in sat:
                            rem -= want[l] - res[l]
                            res[l] = want[l]
                            act.remove(l)
                    flow = res
                else:
                    l, q = src[0]
                    q = flow[l]
                    for o in outl:
                        share = sum(x for d, x in comp[l].items() if rt[v][d] == o)
                        if share > 1e-12:
                            q = min(q, recv[o] / share)
                    flow[l] = q
                for l, q in flow.items():
                    c = s.comp(l, v, q, i, rt)
                    if l is None:
                        s.Qout[v][i] = s.Qout[v][i - 1] + q
                    else:
                        s.D[l][i] += q
                    for d, x in c.items():
                        o = rt[v][d]
                        s.A[o][i] += q * x
                        s.Ad[o][d][i] += q * x
                if org and None not in flow:
                    s.Qout[v][i] = s.Qout[v][i - 1]

    def comp(s, l, v, q, i, rt):
        """Shares by destination of the next q vehicles leaving link l (or origin v)."""
        if len(s.dests) == 1:
            return {s.dests[0]: 1.0}
        if l is None:
            base, per = s.Qout[v][i - 1], s.Q[v]
            tot = [sum(per[d][j] for d in s.dests) for j in ()]
        else:
            base, per = s.D[l][i - 1], s.Ad[l]
        a = s.split(per, base, i, l, v)
        b = s.split(per, base + max(q, 1e-9), i, l, v)
        d = {k: max(0.0, b[k] - a[k]) for k in s.dests}
        t = sum(d.values())
        return {k: x / t for k, x in d.items()} if t > 1e-15 else {k: 1.0 / len(s.dests) for k in s.dests}

    def split(s, per, N, i, l, v):
        """Cumulative per destination when the total cumulative equals N."""
        key = (l, v)
        cur = s.__dict__.setdefault("_cur", {})
        j = cur.get(key, 0)
        tot = lambda k: sum(per[d][k] for d in s.dests)
        while j > 0 and tot(j) > N:
            j -= 1
        while j < i and tot(j + 1) <= N:
            j += 1
        cur[key] = j
        a = tot(j)
        if j >= i or N <= a:
            return {d: per[d][j] for d in s.dests}
        b = tot(j + 1)
        f = (N - a) / (b - a) if b > a else 0
        return {d: per[d][j] + f * (per[d][j + 1] - per[d][j]) for d in s.dests}

    def at(s, c, t):
        x = t / s.dt
        if x <= 0:
            return 0.0
        j = int(x)
        if j >= s.n - 1:
            return c[-1]
        return c[j] + (x - j) * (c[j + 1] - c[j])


def build_spec(case, deltan, rt_factor):
    nodes, links = [], []
    for i, n in enumerate(case["nodes"]):
        d = {"name": "n%d" % i, "x": i, "y": 0}
        d.update(n)
        nodes.append(d)
    for i, l in enumerate(case["links"]):
        d = {"name": "l%d" % i, "start": "n%d" % l["a"], "end": "n%d" % l["b"]}
        for k in ("length", "free_flow_speed", "jam_density_per_lane", "number_of_lanes", "capacity_in", "capacity_out", "signal_group", "merge_priority"):
            if k in l:
                d[k] = l[k]
        links.append(d)
    return {"W": {"deltan": deltan, "reaction_time": case["rt"], "tmax": case["tmax"], "random_seed": case["seed"], "duo_update_time": 1e6}, "nodes": nodes, "links": links,
            "demands": [{"orig": "n%d" % d["o"], "dest": "n%d" % d["d"], "t_start": d["t0"], "t_end": d["t1"], "flow": d["q"]} for d in case["demands"]], "vehicles": []}


def simulate(ux, case, deltan, cpp):
    spec = build_spec(case, deltan, 1)
    W = scen.build(ux, spec, cpp=cpp)
    dep = {}
    dt = W.DELTAT
    for d in spec["demands"]:
        n = sum(v.orig.name == d["orig"] and v.dest.name == d["dest"] and d["t_start"] - 1e-6 <= v.departure_time * dt < d["t_end"] - 1e-6 for v in W.VEHICLES.values())
        if abs(n * deltan - d["flow"] * (d["t_end"] - d["t_start"])) > deltan:
            fail("demand %s made %d platoons of %d" % (d, n, deltan), "demand")
        if n:
            dep.setdefault(d["orig"], {}).setdefault(d["dest"], []).append((d["t_start"], d["t_end"], float(n * deltan)))
    scen.run_full(W)
    return W, dep


def reference(W, case, dep):
    links, prio = {}, {None: 1.0}
    lanes = {}
    for i, l in enumerate(case["links"]):
        n = l.get("number_of_lanes", 1)
        kap = l["jam_density_per_lane"] * n
        tau = case["rt"] / n
        u = l["free_flow_speed"]
        w = 1 / (tau * kap)
        links["l%d" % i] = {"a": "n%d" % l["a"], "b": "n%d" % l["b"], "L": l["length"], "u": u, "w": w, "kap": kap, "cap": u * w * kap / (u + w), "cin": l.get("capacity_in"), "cout": l.get("capacity_out")}
        prio["l%d" % i] = l.get("merge_priority", 1)
        lanes["l%d" % i] = n
    outs = {}
    for l, p in links.items():
        outs.setdefault(p["a"], []).append(l)
    dests = {"n%d" % d["d"] for d in case["demands"]}
    rt = {}

    def leads(l, d):
        b = links[l]["b"]
        return b == d or any(leads(o, d) for o in outs.get(b, []))
    for v in outs:
        rt[v] = {d: next((o for o in outs[v] if leads(o, d)), outs[v][0]) for d in dests}
    nodecap = {"n%d" % i: n.get("flow_capacity") for i, n in enumerate(case["nodes"])}
    sig = {n.name: list(n.signal_log) for n in W.NODES if len(n.signal) > 1}
    grp = {"l%d" % i: l.get("signal_group", [0]) for i, l in enumerate(case["links"])}
    dt = W.DELTAT

    def green(l, t):
        s = sig.get(links[l]["b"])
        if s is None:
            return True
        return s[min(max(int((t - 1e-9) / dt), 0), len(s) - 1)] in grp[l]
    m = Ltm(links, None, nodecap, None, rt, dep, green, prio, dt / SUB, W.TMAX + dt)
    return m, lanes


# tolerance: A_ref(t - (t0 + t1*depth)*dt) - n*platoon <= A_sim <= A_ref(t + ...) + n*platoon
TOL = {"t0": 1.0, "t1": 0.5, "n0": 1.5, "n1": 0.25, "n": 1.0}


def compare(W, m, lanes, case, depth, cpp, stats=None, tol=TOL):
    dt, dn = W.DELTAT, W.DELTAN
    rnd = {}
    merges = {}
    for i, l in enumerate(case["links"]):
        merges.setdefault(l["b"], []).append(i)
    multi = max(lanes.values())
    noisy = set()
    for v, ls in merges.items():
        if len(ls) > 1:
            noisy |= {"l%d" % i for i in ls}
    up = True
    while up:
        up = False
        for i, l in enumerate(case["links"]):
            if "l%d" % i not in noisy and any(case["links"][int(x[1:])]["a"] == l["b"] for x in noisy):
                noisy.add("l%d" % i)
                up = True
    sigs = [n.signal_log for n in W.NODES if len(n.signal) > 1]
    cyc = [sum(sum(a != b for a, b in zip(s[:T + 1], s[1:T + 1])) / 2 + 0.5 for s in sigs) for T in range(W.TSIZE)]    # green starts so far
    worst = (0, None)
    for l in W.LINKS:
        for kind, sim, ref in (("arrivals", l.cum_arrival, m.A[l.name]), ("departures", l.cum_departure, m.D[l.name])):
            h = depth[l.name] + (kind == "departures")
            n0 = dn * (tol["n"] + tol["n0"] * multi + tol["n1"] * h)
            tt = dt * (tol["t0"] + tol["t1"] * h)
            for T in range(W.TSIZE):
                t = (T + 1) * dt
                v = float(sim[T])
                nn = n0 + dn * multi * cyc[T]
                if l.name in noisy:
                    nn += dn * 2.5 * math.sqrt(max(v, dn) / dn)
                lo, hi = m.at(ref, t - dt - tt) - nn, m.at(ref, t + tt) + nn
                if stats is not None:
                    e = -dn * multi * cyc[T] - (l.name in noisy) * (nn - n0) + max(m.at(ref, t - dt - tt) - v, v - m.at(ref, t + tt))
                    if e / dn > worst[0]:
                        worst = (e / dn, (l.name, kind, T))
                    stats["e"] = worst
                    continue
                if not lo - 1e-6 <= v <= hi + 1e-6:
                    fail("platoon size %d, step %s s: cumulative %s of link %s at %s s are %s, kinematic-wave solution %.1f (between %.1f and %.1f within the discretisation; link parameters %s)"
                         % (dn, dt, kind, l.name, t, v, m.at(ref, t), lo, hi, {k: (round(x, 4) if isinstance(x, float) else x) for k, x in m.links[l.name].items()}), "curve")
    return worst


def depths(case):
    d = {}

    def go(i):
        if i not in d:
            d[i] = 1 + max([go(j) for j, l in enumerate(case["links"]) if l["b"] == case["links"][i]["a"]], default=-1)
        return d[i]
    return {"l%d" % i: go(i) for i in range(len(case["links"]))}


def queue(m):
    """Largest delay on a link in the reference, in vehicles."""
    q = 0.0
    for l, p in m.links.items():
        for i in range(0, m.n, SUB):
            q = max(q, m.at(m.A[l], i * m.dt - p["L"] / p["u"]) - m.D[l][i])
    return q


def make(cpp):
    def check(case, stats=None):
        from vlib import env
        ux = env.setup(cpp=cpp)
        nt = 0
        for deltan in case["deltans"]:
            fin = case["rt"] * deltan
            if any(l["length"] < 2 * l["free_flow_speed"] * fin or l["length"] * l["jam_density_per_lane"] < 4 * deltan for l in case["links"]):
                raise Skip("short link")
            W, dep = simulate(ux, case, deltan, cpp)
            if not dep:
                raise Skip("no vehicle")
            m, lanes = reference(W, case, dep)
            st = {} if stats is not None else None
            compare(W, m, lanes, case, depths(case), cpp, st)
            if stats is not None:
                stats.append((deltan,) + st["e"] + (max(lanes.values()), max(depths(case).values())))
            nt += queue(m) > 2 * deltan
            for l in W.LINKS:
                p = m.links[l.name]
                for a, b in (("u", l.u), ("w", l.w), ("kap", l.kappa), ("cap", l.capacity)):
                    if abs(p[a] - b) > 1e-9 * abs(b):
                        fail("link %s: %s is %s, the triangular diagram gives %s" % (l.name, a, b, p[a]), "fd")
        return Info(nt > 0, [case["kind"]])
    return check


def strategy():
    from hypothesis import strategies as st

    @st.composite
    def s(draw):
        kind = draw(st.sampled_from(["corridor", "corridor", "merge", "diverge"]))
        dn = draw(st.sampled_from([[2, 1], [4, 2], [6, 3], [10, 5], [5], [1]]))
        rt = draw(st.sampled_from([1, 0.5, 2, 1.5]))
        step = rt * dn[0]
        k = draw(st.integers(1, 4))
        if kind == "corridor":
            edges = [(i, i + 1) for i in range(k)]
            ods = [(0, k)]
        elif kind == "merge":
            edges = [(0, 2), (1, 2), (2, 3)] + ([(3, 4)] if draw(st.booleans()) else [])
            ods = [(0, len(edges)), (1, len(edges))]
        else:
            edges = [(0, 1), (1, 2), (1, 3)] + ([(2, 4)] if draw(st.booleans()) else [])
            ods = [(0, 4 if len(edges) == 4 else 2), (0, 3)]
        nn = max(max(e) for e in edges) + 1
        deg_in = [sum(e[1] == v for e in edges) for v in range(nn)]
        nodes, links = [{} for _ in range(nn)], []
        lanes0 = draw(st.sampled_from([1, 1, 1, 2, 3]))
        for a, b in edges:
            u = draw(st.sampled_from([20, 10, 15, 30, 8, 25]))
            lanes = lanes0 if kind != "corridor" or draw(st.booleans()) else draw(st.sampled_from([1, 2, 3]))
            kl = draw(st.sampled_from([0.2, 0.1, 0.15, 0.25]))
            L = max(u * step, 2 * dn[0] / kl) * draw(st.sampled_from([2, 3, 5, 2.5, 4, 7.3, 10]))
            l = {"a": a, "b": b, "length": L, "free_flow_speed": u, "jam_density_per_lane": kl, "number_of_lanes": lanes}
            cap = 1 / (1 / (u * l["jam_density_per_lane"]) + rt) * lanes
            r = draw(st.sampled_from([None, None, None, "in", "out"]))
            if r == "in" and any(x["b"] == a and "capacity_out" in x for x in links):
                r = None            # one flow budget per node: several of them waste each other's allowance
            if r and (deg_in[b if r == "out" else a] < 2 and sum(e[0] == (b if r == "out" else a) for e in edges) < 2):
                l["capacity_" + r] = round(cap * draw(st.sampled_from([0.25, 0.5, 0.7, 0.9, 0.33])), 3)
            links.append(l)
        for v in range(nn):
            if any(e[0] == v for e in edges) and deg_in[v] == 1 and draw(st.sampled_from([0, 0, 0, 1])):
                if draw(st.booleans()):
                    for l in links:
                        l.pop("capacity_in" if l["a"] == v else "capacity_out" if l["b"] == v else "", None)
                    nodes[v]["flow_capacity"] = round(draw(st.sampled_from([0.2, 0.4, 0.8])) / rt, 3)
                    nodes[v]["number_of_lanes"] = 1
                else:
                    nodes[v]["signal"] = [step * draw(st.integers(6, 15)), step * draw(st.integers(3, 12))]
                    for l in links:             # the flow budgets may be saved up during red
                        if v in (l["a"], l["b"]):
                            l.pop("capacity_in", None), l.pop("capacity_out", None)
        lcap = lambda l: l["number_of_lanes"] / (1 / (l["free_flow_speed"] * l["jam_density_per_lane"]) + rt)
        for v in range(nn):         # a budget just above the capacity of a link at the node wastes some of its allowance: make budgets clear bottlenecks
            m = min(lcap(l) for l in links if v in (l["a"], l["b"]))
            for d, k in [(nodes[v], "flow_capacity")] + [(l, "capacity_in") for l in links if l["a"] == v] + [(l, "capacity_out") for l in links if l["b"] == v]:
                if k in d and d[k] > 0.7 * m:
                    d[k] = round(0.6 * m, 3)
        base = links[0]
        cap0 = 1 / (1 / (base["free_flow_speed"] * base["jam_density_per_lane"]) + rt) * base["number_of_lanes"]
        steps = draw(st.sampled_from([40, 80, 120, 160, 200] if kind == "corridor" else [40, 60, 80]))
        tmax = step * steps
        demands = []
        for o, d in ods:
            t = 0.0
            for _ in range(draw(st.integers(1, 3))):
                t1 = t + step * int(steps * draw(st.sampled_from([0.1, 0.2, 0.3, 0.5, 0.9])))
                demands.append({"o": o, "d": d, "t0": t, "t1": t1, "q": round(cap0 * draw(st.sampled_from([0.3, 0.6, 0.9, 1.2, 0.1])) / (len(ods) if kind == "diverge" else 1), 3)})
                t = t1 + step * draw(st.sampled_from([0, 0, 5]))
        return {"kind": kind, "deltans": dn, "rt": rt, "nodes": nodes, "links": links, "demands": demands, "tmax": tmax, "seed": draw(st.integers(0, 99))}
    return s()


PARTS = [
    Part("python", strategy, make(False), 250, 10000),
    Part("cpp", strategy, make(True), 300, 12000, engine="cpp"),
]
