"""Scenario specifications (plain JSON) for UXsim: generators, builders and step-by-step observation.

A spec is {"W": world options, "nodes": [...], "links": [...], "demands": [...], "vehicles": [...]}.
Every random choice is made inside the Hypothesis strategies, so that specs shrink and replay."""
import math

STATES = ["home", "wait", "run", "end", "abort"]


# ----------------------------------------------------------------------------- builders

def make_toll(spec):
    if spec is None:
        return None
    k = spec["kind"]
    if k == "const":
        return lambda t, v=spec["v"]: v
    if k == "step":
        return lambda t, s=spec: s["v"] if s["t0"] <= t < s["t1"] else s.get("v0", 0)
    if k == "linear":
        return lambda t, s=spec: s["v"] + s["a"] * t
    raise ValueError(k)


QUIET = dict(print_mode=0, save_mode=0, show_mode=0, show_progress=0)


def new_world(ux, spec, cpp=False, **over):
    kw = dict(QUIET)
    kw.update(spec["W"])
    kw.update(over)
    name = kw.pop("name", "")
    if not cpp:
        kw.pop("threads", None)
    return ux.World(name, cpp=cpp, **kw)


NODE_KEYS = ("signal", "signal_offset", "flow_capacity", "number_of_lanes", "attribute", "user_attribute", "user_function", "auto_rename")
LINK_KEYS = ("free_flow_speed", "jam_density", "jam_density_per_lane", "number_of_lanes", "merge_priority", "signal_group",
             "capacity_out", "capacity_in", "attribute", "user_attribute", "user_function", "auto_rename", "eular_dx")


def add_network(W, spec, by_object=False):
    for n in spec["nodes"]:
        kw = {k: n[k] for k in NODE_KEYS if k in n}
        if isinstance(kw.get("signal"), list):
            kw["signal"] = list(kw["signal"])
        W.addNode(n["name"], n["x"], n["y"], **kw)
    for l in spec["links"]:
        kw = {k: l[k] for k in LINK_KEYS if k in l}
        if isinstance(kw.get("signal_group"), list):
            kw["signal_group"] = list(kw["signal_group"])
        if l.get("toll") is not None:
            kw["congestion_pricing"] = make_toll(l["toll"])
        s, e = l["start"], l["end"]
        if by_object:
            s, e = W.get_node(s), W.get_node(e)
        W.addLink(l["name"], s, e, l["length"], **kw)


def add_demand(W, spec):
    for d in spec["demands"]:
        kw = {}
        if "flow" in d:
            kw["flow"] = d["flow"]
        if "volume" in d:
            kw["volume"] = d["volume"]
        if "attribute" in d:
            kw["attribute"] = d["attribute"]
        W.adddemand(d["orig"], d["dest"], d["t_start"], d["t_end"], **kw)
    for v in spec.get("vehicles", []):
        kw = {k: v[k] for k in ("name", "trip_abort", "departure_time_is_time_step", "attribute", "user_attribute", "user_function", "route_choice_principle") if k in v}
        if v.get("prefer"):
            kw["links_prefer"] = list(v["prefer"])
        if v.get("avoid"):
            kw["links_avoid"] = list(v["avoid"])
        veh = W.addVehicle(v["orig"], v["dest"], v["t"], **kw)
        if v.get("route"):
            veh.enforce_route(list(v["route"]), **({"set_avoid": True} if v.get("set_avoid") else {}))


def build(ux, spec, cpp=False, **over):
    W = new_world(ux, spec, cpp=cpp, **over)
    add_network(W, spec)
    add_demand(W, spec)
    return W


# ----------------------------------------------------------------------------- observation

class Snap:
    """State at the end of one time step (T = index of that step)."""
    __slots__ = ("T", "vehs", "links", "nodes", "home", "counts")


def _name(o):
    return None if o is None or isinstance(o, (int, str)) else o.name


def snap(W, is_cpp, T):
    s = Snap()
    s.T = T
    vehs, home = {}, []
    if is_cpp:
        for name, v in W.VEHICLES.items():
            c = v._cpp_vehicle
            st = v.state
            if st == "home":
                home.append(name)
                continue
            lk = c.link
            nx = c.route_next_link
            vehs[name] = (st, lk.name if lk is not None else None, c.x, c.v, c.lane, nx.name if nx is not None else None)
        s.links = {}
        for l in W.LINKS:
            a, d = l.cum_arrival, l.cum_departure
            s.links[l.name] = (None, float(a[T]), float(d[T]), l.capacity_in_remain, l.capacity_out_remain)
        s.nodes = {n.name: (n.signal_phase, None, n._cpp_node.flow_capacity_remain) for n in W.NODES}
    else:
        for name, v in W.VEHICLES.items():
            st = v.state
            if st == "home":
                home.append(name)
                continue
            vehs[name] = (st, _name(v.link), v.x, v.v, v.lane, _name(getattr(v, "route_next_link", None)))
        s.links = {l.name: (tuple(x.name for x in l.vehicles), float(l.cum_arrival[-1]), float(l.cum_departure[-1]),
                            l.capacity_in_remain, l.capacity_out_remain) for l in W.LINKS}
        s.nodes = {n.name: (n.signal_phase, tuple(x.name for x in n.generation_queue), n.flow_capacity_remain) for n in W.NODES}
    s.vehs, s.home = vehs, home
    s.counts = None
    return s


def finalize(W):
    if not W.finalized:
        W.finalize_scenario()
    return W


def run_traced(W, is_cpp, on_step=None, max_steps=5000):
    """Run to the end one step at a time; return the list of Snaps (index = time step)."""
    finalize(W)
    tr = []
    dt = W.DELTAT
    while W.check_simulation_ongoing() and len(tr) < max_steps:
        T = W.T
        if on_step is not None:
            on_step(W, T)
        W.exec_simulation(duration_t2=dt * 1.0000001)
        tr.append(snap(W, is_cpp, T))
    return tr


def run_full(W):
    finalize(W)
    W.exec_simulation()
    return W


# ----------------------------------------------------------------------------- strategies

def strategies():
    from hypothesis import strategies as st
    return st


SPEEDS = [20, 10, 15, 30, 8, 25, 13.9, 16.7, 5]
JAMS = [0.2, 0.1, 0.15, 0.25, 0.3, 0.14]
DELTANS = [5, 1, 2, 3, 4, 7, 10]
REACTIONS = [1, 2, 0.5, 1.5]


def topologies(draw, st, kind):
    """Return (node count, coordinates, edge list)."""
    if kind == "corridor":
        n = draw(st.integers(2, 5))
        return [(i, 0) for i in range(n)], [(i, i + 1) for i in range(n - 1)]
    if kind == "merge":
        k = draw(st.integers(2, 4))
        c = [(0, i) for i in range(k)] + [(1, 0), (2, 0)]
        e = [(i, k) for i in range(k)] + [(k, k + 1)]
        if draw(st.booleans()):
            c.append((3, 0))
            e.append((k + 1, k + 2))
        return c, e
    if kind == "diverge":
        k = draw(st.integers(2, 3))
        c = [(0, 0), (1, 0)] + [(2, i) for i in range(k)]
        return c, [(0, 1)] + [(1, 2 + i) for i in range(k)]
    if kind == "cross":
        c = [(0, 0), (0, 1), (1, 0), (0, -1), (-1, 0)]
        e = []
        for i in range(1, 5):
            e += [(i, 0), (0, i)]
        return c, e
    if kind == "tworoute":
        c = [(0, 0), (1, 1), (1, -1), (2, 0)]
        e = [(0, 1), (1, 3), (0, 2), (2, 3)]
        if draw(st.booleans()):
            e.append((1, 2))
        return c, e
    if kind == "grid":
        a, b = draw(st.sampled_from([(2, 2), (2, 3), (3, 3)]))
        c = [(i, j) for i in range(a) for j in range(b)]
        ix = {p: k for k, p in enumerate(c)}
        e = []
        for (i, j) in c:
            for (di, dj) in ((1, 0), (0, 1)):
                if (i + di, j + dj) in ix:
                    e.append((ix[i, j], ix[i + di, j + dj]))
                    e.append((ix[i + di, j + dj], ix[i, j]))
        return c, e
    if kind == "ring":
        n = draw(st.integers(3, 5))
        c = [(round(math.cos(2 * math.pi * i / n), 3), round(math.sin(2 * math.pi * i / n), 3)) for i in range(n)]
        e = [(i, (i + 1) % n) for i in range(n)]
        if draw(st.booleans()):
            e += [((i + 1) % n, i) for i in range(n)]
        return c, e
    # random digraph, possibly with parallel links and unreachable parts
    n = draw(st.integers(2, 6))
    c = [(i % 3, i // 3) for i in range(n)]
    m = draw(st.integers(1, 12))
    e = []
    for _ in range(m):
        i = draw(st.integers(0, n - 1))
        j = draw(st.integers(0, n - 2))
        if j >= i:
            j += 1
        e.append((i, j))
    return c, e


def reach(n, edges):
    adj = {i: set() for i in range(n)}
    for i, j in edges:
        adj[i].add(j)
    out = {}
    for s in range(n):
        seen, stack = {s}, [s]
        while stack:
            u = stack.pop()
            for v in adj[u]:
                if v not in seen:
                    seen.add(v)
                    stack.append(v)
        out[s] = seen - {s}
    return out


ALL_KINDS = ["corridor", "merge", "diverge", "cross", "tworoute", "grid", "ring", "random"]


def scenario_strategy(kinds=None, **opt):
    """Strategy of scenario specs.

    opt: det (None/True/False), noise (None: drawn / value), signals, tolls, caps, nodecaps, multilane,
    vehicles (explicit vehicles), constraints (prefer/avoid/route), unreachable (allow OD without a path),
    max_steps, min_steps, max_platoons, parallel, options (acyclic / gradual / ...), zero_caps, change-free names."""
    st = strategies()
    kinds = list(kinds or ALL_KINDS)

    @st.composite
    def gen(draw):
        g = lambda k, d: opt.get(k, d)
        kind = draw(st.sampled_from(kinds))
        coords, edges = topologies(draw, st, kind)
        if g("parallel", True) and kind != "random" and draw(st.integers(0, 5)) == 0:
            edges = edges + [edges[draw(st.integers(0, len(edges) - 1))]]
        deltan = draw(st.sampled_from(g("deltans", DELTANS)))
        reaction = draw(st.sampled_from(g("reactions", REACTIONS)))
        dt = deltan * reaction
        steps = draw(st.integers(g("min_steps", 12), g("max_steps", 90)))
        tmax = steps * dt
        if g("odd_tmax", True) and draw(st.integers(0, 3)) == 0:
            tmax = round(tmax + dt * draw(st.sampled_from([0.3, 0.5, 0.9])), 3)
        W = {"deltan": deltan, "reaction_time": reaction, "tmax": tmax, "random_seed": draw(st.integers(0, 9999))}
        det = g("det", None)
        W["hard_deterministic_mode"] = draw(st.booleans()) if det is None else det
        noise = g("noise", None)
        W["duo_noise"] = draw(st.sampled_from([0.01, 0, 0.2])) if noise is None else noise
        W["duo_update_time"] = draw(st.sampled_from([600, round(dt * 3, 3), round(dt * 7.5, 3), dt, 60]))
        W["duo_update_weight"] = draw(st.sampled_from([0.5, 1, 0.1, 0]))
        if g("options", True):
            if draw(st.integers(0, 4)) == 0:
                W["no_cyclic_routing"] = True
            if draw(st.integers(0, 4)) == 0:
                W["route_choice_update_gradual"] = True
            if draw(st.integers(0, 4)) == 0:
                W["instantaneous_TT_timestep_interval"] = draw(st.sampled_from([1, 2, 10]))
            if g("adjust", True) and draw(st.integers(0, 7)) == 0:
                W["adjust_node_capacity"] = True
        nodes, links = [], []
        namep = g("prefix", "")
        indeg = {}
        for i, j in edges:
            indeg[j] = indeg.get(j, 0) + 1
        phases_of = {}
        for i, (x, y) in enumerate(coords):
            nd = {"name": "%sN%d" % (namep, i), "x": x, "y": y}
            if g("signals", True) and indeg.get(i, 0) >= 1 and draw(st.integers(0, 3)) == 0:
                nph = draw(st.integers(2, 4))
                nd["signal"] = [draw(st.sampled_from([round(dt * k, 3) for k in (1, 2, 3, 5, 0.5, 2.5, 7.3)] + [30])) for _ in range(nph)]
                cyc = sum(nd["signal"])
                nd["signal_offset"] = draw(st.sampled_from([0, round(cyc * 0.3, 2), round(cyc * 0.9, 2), dt] +
                                                           ([round(cyc * 1.7, 2), -dt] if g("wild_offset", False) else [])))
                phases_of[i] = nph
            if g("nodecaps", True) and draw(st.integers(0, 5)) == 0:
                nd["flow_capacity"] = draw(st.sampled_from([0.5, 0.2, 0.8, 1.3] + ([0] if g("zero_caps", False) else [])))
                if draw(st.booleans()):
                    nd["number_of_lanes"] = draw(st.integers(1, 3))
            nodes.append(nd)
        used_names = set()
        for k, (i, j) in enumerate(edges):
            u = draw(st.sampled_from(SPEEDS))
            nsteps = draw(st.sampled_from([3, 2, 5, 8, 1, 12, 0.6] if g("shortlinks", True) else [3, 2, 5, 8, 12]))
            length = round(u * dt * nsteps * draw(st.sampled_from([1, 1, 1.13, 0.97])), 2)
            ln = {"name": "%sL%d" % (namep, k), "start": nodes[i]["name"], "end": nodes[j]["name"],
                  "length": max(length, 1.0), "free_flow_speed": u}
            if draw(st.integers(0, 3)) == 0:
                ln["jam_density_per_lane"] = draw(st.sampled_from(JAMS))
            else:
                ln["jam_density"] = draw(st.sampled_from(JAMS))
            if g("multilane", True) and draw(st.integers(0, 2)) == 0:
                ln["number_of_lanes"] = draw(st.integers(2, 4))
            if draw(st.integers(0, 2)) == 0:
                ln["merge_priority"] = draw(st.sampled_from([0.5, 2, 3, 0, 1]))
            if j in phases_of:
                nph = phases_of[j]
                ln["signal_group"] = draw(st.lists(st.integers(0, nph - 1), min_size=1, max_size=nph, unique=True))
            if g("caps", True):
                if draw(st.integers(0, 4)) == 0:
                    ln["capacity_out"] = draw(st.sampled_from([0.3, 0.15, 0.5, 0.8, 1.1]))
                if draw(st.integers(0, 4)) == 0:
                    ln["capacity_in"] = draw(st.sampled_from([0.3, 0.15, 0.5, 0.8, 1.1] + ([0] if g("zero_caps", False) else [])))
            if g("tolls", True) and draw(st.integers(0, 6)) == 0:
                ln["toll"] = draw(st.sampled_from([{"kind": "const", "v": 50.0}, {"kind": "step", "t0": dt * 3, "t1": round(dt * 20, 3), "v": 200.0, "v0": 0.0},
                                                   {"kind": "linear", "v": 1.0, "a": 0.1}]))
            links.append(ln)
        n = len(coords)
        rch = reach(n, edges)
        pairs = [(i, j) for i in range(n) for j in sorted(rch[i])]
        allpairs = [(i, j) for i in range(n) for j in range(n) if i != j]
        demands, vehicles = [], []
        budget = draw(st.integers(g("min_platoons", 1), g("max_platoons", 60)))
        nd_ = draw(st.integers(1, 5))
        for q in range(nd_):
            if g("unreachable", True) and draw(st.integers(0, 9)) == 0:
                i, j = draw(st.sampled_from(allpairs))
                if not any(a == i for a, b in edges) and not g("no_outlink_origins", True):
                    continue
            elif pairs:
                i, j = draw(st.sampled_from(pairs))
            else:
                continue
            pl = max(1, min(budget, draw(st.integers(1, max(1, budget // nd_ * 2)))))
            t0 = round(tmax * draw(st.sampled_from([0, 0, 0.1, 0.33])), 2)
            dur = round(tmax * draw(st.sampled_from([0.2, 0.4, 0.05, 0.7])), 2) + dt
            d = {"orig": nodes[i]["name"], "dest": nodes[j]["name"], "t_start": t0, "t_end": round(t0 + dur, 2)}
            if draw(st.booleans()):
                d["flow"] = round(pl * deltan / dur, 4)
            else:
                d["volume"] = pl * deltan
            demands.append(d)
        if g("vehicles", True):
            for q in range(draw(st.integers(0, 3))):
                if not pairs:
                    break
                i, j = draw(st.sampled_from(pairs))
                v = {"orig": nodes[i]["name"], "dest": nodes[j]["name"],
                     "t": draw(st.integers(0, max(1, int(steps * 0.6)))), "departure_time_is_time_step": 1}
                if not g("vt_steps", True) or draw(st.booleans()):
                    v["t"] = round(v["t"] * dt, 3)
                    v.pop("departure_time_is_time_step")
                if g("constraints", True):
                    c = draw(st.integers(0, 5))
                    if c == 1:
                        v["prefer"] = [links[a]["name"] for a in draw(st.lists(st.integers(0, len(links) - 1), min_size=1, max_size=3, unique=True))]
                    elif c == 2:
                        av = draw(st.lists(st.integers(0, len(links) - 1), min_size=1, max_size=2, unique=True))
                        if safe_avoid(edges, av):
                            v["avoid"] = [links[a]["name"] for a in av]
                    elif c == 3:
                        r = some_route(draw, st, edges, i, j)
                        if r:
                            v["route"] = [links[a]["name"] for a in r]
                vehicles.append(v)
        return {"W": W, "nodes": nodes, "links": links, "demands": demands, "vehicles": vehicles}
    return gen()


def safe_avoid(edges, avoid):
    """True if no node has all of its exits in `avoid` (the documented use of links_avoid)."""
    outs = {}
    for k, (i, j) in enumerate(edges):
        outs.setdefault(i, []).append(k)
    return all(any(k not in avoid for k in ks) for ks in outs.values())


def some_route(draw, st, edges, i, j, maxlen=8):
    """A random valid walk of links from node i to node j without revisiting a node (or None)."""
    outs = {}
    for k, (a, b) in enumerate(edges):
        outs.setdefault(a, []).append((k, b))
    n = max(max(a, b) for a, b in edges) + 1
    rch = reach(n, edges)
    cur, seen, r = i, {i}, []
    while cur != j and len(r) < maxlen:
        opts = [(k, b) for k, b in outs.get(cur, []) if b not in seen and (b == j or j in rch[b])]
        if not opts:
            return None
        k, b = draw(st.sampled_from(opts))
        r.append(k)
        seen.add(b)
        cur = b
    return r if cur == j else None
