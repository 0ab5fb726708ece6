"""Operations on a world during (or before) its run, as plain data: {"k": kind, "i": index, "x": value, "n": small number}."""
from . import scen

KINDS = ["cap_in", "cap_out", "node_cap", "ffs", "jam", "signal", "signal2", "priority", "toll", "demand", "vehicle", "route", "prefer", "avoid", "lanes_phase"]


def s_op(kinds=None):
    st = scen.strategies()
    return st.fixed_dictionaries({"k": st.sampled_from([k for k in (kinds or KINDS)]), "i": st.integers(0, 11), "x": st.sampled_from([0.5, 0.2, 1.0, 0.8, 0.0, 1.7]), "n": st.integers(0, 7)})


def s_timed(max_steps, kinds=None, max_size=5, min_size=0):
    st = scen.strategies()
    return st.lists(st.fixed_dictionaries({"T": st.integers(0, max_steps), "op": s_op(kinds)}), min_size=min_size, max_size=max_size)


def pairs(W):
    """Origin-destination pairs with a path, as node names (independent of the engine)."""
    ix = {n.name: i for i, n in enumerate(W.NODES)}
    r = scen.reach(len(W.NODES), [(ix[l.start_node.name], ix[l.end_node.name]) for l in W.LINKS])
    return [(W.NODES[i].name, W.NODES[j].name) for i in range(len(W.NODES)) for j in sorted(r[i])]


def simple_routes(W, o, d, limit=20):
    """Loop-free routes from o to d as link names, depth first, at most `limit`."""
    outs = {}
    for l in W.LINKS:
        outs.setdefault(l.start_node.name, []).append((l.name, l.end_node.name))
    res = []

    def go(u, seen, path):
        if len(res) >= limit:
            return
        if u == d:
            res.append(list(path))
            return
        for n, v in outs.get(u, []):
            if v not in seen:
                go(v, seen | {v}, path + [n])
    go(o, {o}, [])
    return res


def apply(W, op, cpp, ignore=(), start_min=None):
    """Apply op to world W. Returns True if it did something. Routes are set for vehicles at home, except those named in `ignore`."""
    k, i, x, n = op["k"], op["i"], op["x"], op["n"]
    l = W.LINKS[i % len(W.LINKS)]
    nd = W.NODES[i % len(W.NODES)]
    T = max(getattr(W, "T", 0), start_min or 0)
    if k == "cap_in":
        l.capacity_in = x
    elif k == "cap_out":
        l.capacity_out = x
    elif k == "node_cap":
        c = [m for m in W.NODES if m.flow_capacity is not None]
        if not c:
            return False
        c[i % len(c)].flow_capacity = x
    elif k == "ffs":
        l.change_free_flow_speed(5.0 + 20 * x)
    elif k == "jam":
        l.change_jam_density((0.1 + 0.1 * x) * l.number_of_lanes)
    elif k in ("signal", "signal2"):
        c = [m for m in W.NODES if len(m.signal) > 1]
        if not c:
            return False
        m = c[i % len(c)]
        new = [W.DELTAT * (1 + (n + j) % 4) for j in range(len(m.signal))]
        m.override_signal(new, signal_offset=W.DELTAT * (n % 3), reset=(k == "signal2"))
    elif k == "priority":
        if cpp:
            l._cpp_link.merge_priority = float(x)
        l.merge_priority = x
    elif k == "toll":
        t0 = T * W.DELTAT
        l.congestion_pricing = lambda t, t0=t0, v=100.0 * (n + x): v if t >= t0 else 0
        if cpp:
            return False
    elif k in ("demand", "vehicle"):
        c = pairs(W)
        if not c:
            return False
        o, d = c[i % len(c)]
        t = T + n
        if k == "vehicle":
            if t >= W.TSIZE:
                return False
            W.addVehicle(o, d, t, departure_time_is_time_step=1)
        else:
            W.adddemand(o, d, t * W.DELTAT, (t + 6) * W.DELTAT, flow=max(x, 0.2))
    elif k in ("route", "prefer", "avoid"):
        vs = [v for v in W.VEHICLES.values() if v.state == "home" and v.name not in ignore]
        if not vs:
            return False
        v = vs[i % len(vs)]
        rs = simple_routes(W, v.orig.name, v.dest.name)
        if not rs:
            return False
        r = rs[n % len(rs)]
        if k == "route":
            v.enforce_route(r)
        elif k == "prefer":
            v.set_links_prefer(r[:1 + n % 3])
        else:
            ix = {m.name: q for q, m in enumerate(W.NODES)}
            edges = [(ix[a.start_node.name], ix[a.end_node.name]) for a in W.LINKS]
            if not scen.safe_avoid(edges, [i % len(W.LINKS)]):
                return False
            v.set_links_avoid([l.name])
    else:
        return False
    return True


def hooks(events, cpp, out=None):
    """on_step function for scen.run_traced applying timed ops."""
    ev = {}
    for e in events:
        ev.setdefault(e["T"], []).append(e["op"])

    def on_step(W, T):
        for op in ev.get(T, []):
            if apply(W, op, cpp) and out is not None:
                out.append(op["k"])
    return on_step


def run_events(W, cpp, events, upto=None, out=None, ignore=()):
    """Run to the end (or step upto) applying timed ops before their steps."""
    scen.finalize(W)
    ev = {}
    for e in events:
        ev.setdefault(e["T"], []).append(e["op"])
    stop = W.TSIZE if upto is None else min(upto, W.TSIZE)
    for T in sorted(t for t in ev if t < stop):
        if T > W.T:
            W.exec_simulation(duration_t2=(T - W.T) * W.DELTAT)
        for op in ev[T]:
            if apply(W, op, cpp, ignore) and out is not None:
                out.append(op["k"])
    if stop > W.T:
        W.exec_simulation(duration_t2=(stop - W.T) * W.DELTAT)
    return W
