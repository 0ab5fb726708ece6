"""C19: link and route queries against what an observer recorded."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
from vlib.core import Part, Info, fail, Skip, close
from vlib import scen, ops
from vlib.trace import visits

CPP = True
RULE = ("random scenarios with mid-run changes, observed after every step; at random moments of the run and at its end every link and several routes are queried at times before, within and after the simulated period, "
        "and compared with counts and passages reconstructed from the vehicles' positions; non-trivial: a queried link had been used by at least two vehicles and one query lay strictly inside its time of use")
BUDGET = {"quick": 200, "thorough": 3000}
ASSUMPTIONS = ["a trip (or abortion) ending on a link is counted as leaving it at the end of the step, one step later than a transfer, as the code documents for link ends; time steps are dyadic"]


class Obs:
    """Counts and speeds per link and step, from the vehicles themselves."""
    def __init__(s, W, spec):
        s.dn, s.dt = W.DELTAN, W.DELTAT
        s.len = {l.name: l.length for l in W.LINKS}
        s.u0 = {l.name: l.u for l in W.LINKS}
        s.u = []
        s.itt = {l: [] for l in s.len}
        s.iv = W.instantaneous_TT_timestep_interval
        s.prev = {}
        s.tr = []

    def before(s, W, T):
        u = {l.name: l.u for l in W.LINKS}
        for l in s.len:
            if T % s.iv == 0:
                vs = [v[3] for v in s.prev.values() if v[0] == "run" and v[1] == l]
                m = sum(vs) / len(vs) if vs else u[l]
                s.itt[l].append(s.len[l] / m if m > 0 else s.len[l] / (u[l] / 100))
            else:
                s.itt[l].append(s.itt[l][-1])

    def after(s, sn):
        s.prev = sn.vehs
        s.tr.append(sn)

    def curves(s, W):
        N = len(s.tr)
        vis = visits(W, s.tr)
        A = {l: [0] * N for l in s.len}
        D = {l: [0] * N for l in s.len}
        P = {l: [] for l in s.len}      # finished passages (tin, tout, value)
        for vs in vis.values():
            for x in vs:
                if x.tin < N:
                    A[x.link][x.tin] += s.dn
                if x.tout is not None and x.tout < N:
                    D[x.link][x.tout] += s.dn
                    P[x.link].append((x.tin, x.tout, (x.tout - x.tin + (x.exit != "transfer")) * s.dt))
        for c in (A, D):
            for l in c:
                t = 0
                for i in range(N):
                    t += c[l][i]
                    c[l][i] = t
        return A, D, P


def at(c, t, dt, default):
    if not c:
        return default
    return c[min(max(int(t // dt), 0), len(c) - 1)]


def actual(P, t, dt, free, N):
    """Values allowed for the actual travel time at t: that of the last passage that entered at t or before."""
    k = min(max(int(t // dt), 0), N - 1)
    cand = [p for p in P if p[0] <= k]
    if not cand:
        return [free]
    m = max(p[0] for p in cand)
    return [p[2] for p in cand if p[0] == m]


def same(name, l, t, got, want, key, tol=1e-9):
    if not (got == got) or not close(float(got), float(want), tol):
        fail("%s of link %s at %s: %s, observed %s" % (name, l, t, got, want), key)


def query(W, ob, cpp, case, now):
    A, D, P = ob.curves(W)
    dt, N = ob.dt, W.TSIZE
    used = 0
    for li in case["links"]:
        l = W.LINKS[li % len(W.LINKS)]
        n = l.name
        free = ob.len[n] / ob.u0[n]
        for f in case["times"]:
            t = f * now * dt if abs(f) <= 1.0 else f * dt
            a, d = at(A[n], t, dt, 0), at(D[n], t, dt, 0)
            same("arrival_count", n, t, l.arrival_count(t), a, "count")
            same("departure_count", n, t, l.departure_count(t), d, "count")
            same("num_vehicles_t", n, t, l.num_vehicles_t(t), a - d, "count")
            same("average_density", n, t, l.average_density(t), (a - d) / ob.len[n], "derived")
            it = at(ob.itt[n], t, dt, free)
            same("instant_travel_time", n, t, l.instant_travel_time(t), it, "instant")
            same("average_speed", n, t, l.average_speed(t), ob.len[n] / it, "derived")
            same("average_flow", n, t, l.average_flow(t), (a - d) / it, "derived")
            g = l.actual_travel_time(t)
            w = actual(P[n], t, dt, free, N)
            if not any(close(float(g), x) for x in w):
                fail("T=%d: actual_travel_time of link %s at %s: %s, vehicles experienced %s (entry, exit steps: %s)" % (now, n, t, g, w, P[n][-5:]), "actual")
            for f2 in case["times"][:2]:
                t2 = t + 1 + abs(f2) * 7 * dt
                same("inflow_between(%s, .)" % t, n, t2, l.inflow_between(t, t2), (at(A[n], t2, dt, 0) - a) / (t2 - t), "inflow")
                steps = [k for k in range(len(A[n])) if t <= k * dt < t2 and A[n][k] - (A[n][k - 1] if k else 0) > 0]
                if not steps:
                    lo = hi = l.length / l.u
                else:
                    tot = sum(A[n][k] - (A[n][k - 1] if k else 0) for k in steps)
                    lo = sum(min(actual(P[n], k * dt, dt, free, N)) * (A[n][k] - (A[n][k - 1] if k else 0)) for k in steps) / tot
                    hi = sum(max(actual(P[n], k * dt, dt, free, N)) * (A[n][k] - (A[n][k - 1] if k else 0)) for k in steps) / tot
                g = l.average_travel_time_between(t, t2)
                if not lo - 1e-9 * lo <= g <= hi + 1e-9 * hi:
                    fail("T=%d: average_travel_time_between(%s, %s) of link %s: %s, entered vehicles experienced %s to %s" % (now, t, t2, n, g, lo, hi), "between")
            if 0 < t < now * dt and a >= 2 * ob.dn:
                used += 1
        vs = [v for v in ob.prev.values() if v[0] == "run" and v[1] == n]
        same("num_vehicles", n, "now", l.num_vehicles, len(vs) * ob.dn, "now")
        same("density", n, "now", l.density, len(vs) * ob.dn / ob.len[n], "now")
        sp = sum(v[3] for v in vs) / len(vs) if vs else l.u
        same("speed", n, "now", l.speed, sp, "now")
        same("flow", n, "now", l.flow, sp * len(vs) * ob.dn / ob.len[n], "now")
        same("num_vehicles_queue", n, "now", l.num_vehicles_queue, sum(v[3] < l.u for v in vs) * ob.dn, "now")
    pr = ops.pairs(W)
    for q in case["routes"]:
        if not pr:
            break
        rs = ops.simple_routes(W, *pr[q["od"] % len(pr)], limit=8)
        r = rs[q["r"] % len(rs)]
        R = W.defRoute(r if q["obj"] else [W.get_link(x) for x in r])
        t = q["f"] * now * dt
        tot, parts = R.actual_travel_time(t, return_details=True)
        x = t
        for name, p in zip(r, parts):
            free = ob.len[name] / ob.u0[name]
            w = actual(P[name], x, dt, free, N)
            if not any(close(float(p), y) for y in w):
                fail("T=%d: route %s started at %s: link %s entered at %s takes %s, vehicles experienced %s" % (now, r, t, name, x, p, w), "route")
            x += p
        if len(parts) != len(r) or not close(tot, x - t, 1e-9) or not close(R.actual_travel_time(t), tot):
            fail("route %s started at %s: total %s, parts %s" % (r, t, tot, parts), "route")
    return used


def make(cpp):
    def check(case):
        from vlib import env
        ux = env.setup(cpp=cpp)
        spec = case["spec"]
        W = scen.build(ux, spec, cpp=cpp)
        scen.finalize(W)
        ob = Obs(W, spec)
        N = W.TSIZE
        if N < 1:
            raise Skip("no step")
        ev = {}
        for e in case["ops"]:
            ev.setdefault(e["T"], []).append(e["op"])
        stops = {int(f * N) for f in case["stops"]} | {N}
        used = 0
        dt = W.DELTAT
        for T in range(N):
            if T in stops and (T > 0 or case["zero"]):
                used += query(W, ob, cpp, case, T)
            for op in ev.get(T, []):
                ops.apply(W, op, cpp)
            ob.before(W, T)
            W.exec_simulation(duration_t2=dt)
            ob.after(scen.snap(W, cpp, T))
        used += query(W, ob, cpp, case, N)
        return Info(used > 0, ["multilane"] if any(l.get("number_of_lanes", 1) > 1 for l in spec["links"]) else [])
    return check


def strat(**opt):
    def s():
        from hypothesis import strategies as st
        f = st.one_of(st.sampled_from([0.0, 0.5, 1.0, -3.0, 1e6, 0.99, 0.1, 2.0, 5.5]), st.floats(0.0, 1.0, allow_nan=False, width=32))
        r = st.fixed_dictionaries({"od": st.integers(0, 11), "r": st.integers(0, 7), "f": st.floats(0.0, 1.25, allow_nan=False, width=32), "obj": st.booleans()})
        return st.fixed_dictionaries({"spec": scen.scenario_strategy(**opt), "ops": ops.s_timed(40, kinds=["cap_in", "cap_out", "ffs", "jam", "signal2", "demand", "vehicle", "node_cap"], max_size=3),
                                      "stops": st.lists(st.floats(0, 1, allow_nan=False, width=16), max_size=2), "zero": st.booleans(), "times": st.lists(f, min_size=2, max_size=5),
                                      "links": st.lists(st.integers(0, 11), min_size=1, max_size=5, unique=True), "routes": st.lists(r, max_size=3)})
    return s


OPT = dict(max_steps=60, max_platoons=40, min_platoons=4, zero_caps=True)
PARTS = [
    Part("python", strat(**OPT), make(False), 500, 15000),
    Part("cpp", strat(**OPT), make(True), 700, 25000, engine="cpp"),
]
