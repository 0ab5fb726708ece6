"""C02: order, spacing, speed limit and the exact one-step car-following movement, over every step of generated histories."""
from vlib.core import Part, Info, fail
from vlib import scen, trace

CPP = True
RULE = ("random scenarios in both engines, every vehicle checked at every step against the one-step movement model computed from the "
        "previous state; non-trivial: some vehicle was held back by a leader and some link carried two or more vehicles at once")
BUDGET = {"quick": 200, "thorough": 3000}


def order_of(items, lanes, lane_of, last_lane):
    """Order the entrants of one step by consecutive lanes; None if ambiguous."""
    ls = [lane_of[v] for v in items]
    if len(items) == 1:
        return items
    if any(l is None for l in ls) or len(set(ls)) != len(ls):
        return None
    if len(ls) == lanes:
        return None
    s = set(ls)
    starts = [l for l in s if (l - 1) % lanes not in s]
    if len(starts) != 1:
        return None
    return sorted(items, key=lambda v: (lane_of[v] - starts[0]) % lanes)


def check_history(W, tr, cpp, changed=False):
    """`changed`: parameters were changed during the run: only the order, direction and range invariants are exact."""
    dt, dn = W.DELTAT, W.DELTAN
    L = {l.name: l for l in W.LINKS}
    vis = trace.visits(W, tr)
    tol = 1e-7
    followed = maxon = fast = 0
    # --- order of exits equals order of entries
    by_link = {l: [] for l in L}
    for n, vs in vis.items():
        for x in vs:
            by_link[x.link].append(x)
    for l, xs in by_link.items():
        out = [x for x in xs if x.tout is not None]
        # stays on T
        xs2 = sorted(xs, key=lambda x: x.tin)
        maxout = -1
        pend, i = [], 0
        while i < len(xs2):
            j = i
            while j < len(xs2) and xs2[j].tin == xs2[i].tin:
                j += 1
            grp = xs2[i:j]
            for x in grp:
                t = x.tout if x.tout is not None else 10 ** 9
                if t < maxout:
                    fail("link %s: vehicle %s entered at step %d after an earlier vehicle but left at %s, the earlier one at %s" % (l, x.veh, x.tin, t, maxout), "fifo")
            maxout = max([maxout] + [x.tout if x.tout is not None else 10 ** 9 for x in grp])
            lanes = L[l].number_of_lanes
            if len(grp) > lanes:
                fail("link %s: %d platoons entered in step %d, it has %d lanes" % (l, len(grp), xs2[i].tin, lanes))
            lane_of = {x.veh: x.lane for x in grp}
            o = order_of([x.veh for x in grp], lanes, lane_of, None)
            if o and len(o) > 1 and len(set(o)) == len(o):
                d = {x.veh: x for x in grp}
                ts = [d[v].tout if d[v].tout is not None else 10 ** 9 for v in o]
                if ts != sorted(ts):
                    fail("link %s: vehicles %s entered in this order in step %d but left at %s" % (l, o, xs2[i].tin, ts), "fifo")
            i = j
    if not changed and W.vehicle_logging_timestep_interval == 1:
        check_logs(W, L, by_link, dn, dt)
    # --- every step
    on = {l: {} for l in L}          # link -> lane -> [veh in entry order]
    entries = {}
    for n, vs in vis.items():
        for x in vs:
            entries.setdefault(x.tin, []).append(x)
    enders = {}
    cur = {}                          # veh -> Visit
    for k, s in enumerate(tr):
        p = tr[k - 1] if k else None
        ent = entries.get(s.T, [])
        left = {}
        for n, x in list(cur.items()):
            if x.tout == s.T:
                left[n] = x
        # departures by transfer happen before the movement of this step
        gone_lead = {}
        for n, x in left.items():
            if x.exit == "transfer":
                del cur[n]
                g = gone_lead.get((x.link, x.lane))
                if g is None or g.tin < x.tin:
                    gone_lead[x.link, x.lane] = x
        # lanes: predecessor in the same lane
        for x in ent:
            cur[x.veh] = x
        lanes = {}
        for n, x in cur.items():
            if x.lane is not None:
                lanes.setdefault((x.link, x.lane), []).append(x)
        for key, xs in lanes.items():
            xs.sort(key=lambda x: x.tin)
        count = {}
        for n, x in cur.items():
            count[x.link] = count.get(x.link, 0) + 1
        maxon = max([maxon] + list(count.values()))
        for (l, lane), xs in lanes.items():
            lk = L[l]
            u, spacing, length = lk.u, lk.delta_per_lane * dn, lk.length
            if not 0 <= lane < lk.number_of_lanes:
                fail("T=%d link %s: vehicle %s is in lane %s of %d" % (s.T, l, xs[0].veh, lane, lk.number_of_lanes))
            for i, x in enumerate(xs):
                n = x.veh
                st = s.vehs[n]
                ended_now = st[0] in ("end", "abort")
                here = st[1] == l
                leader = xs[i - 1] if i else None
                if leader is not None and leader.tin == x.tin:
                    fail("T=%d link %s: vehicles %s and %s entered the same lane %d in one step" % (s.T, l, leader.veh, n, lane))
                new = x.tin == s.T
                x0 = None
                if not new:
                    x0 = p.vehs[n][2]
                elif x.prev is None:
                    x0 = 0.0
                if here:
                    xx, vv = st[2], st[3]
                    if not (-tol <= xx <= length + tol):
                        fail("T=%d link %s: vehicle %s at x=%r outside [0,%r]" % (s.T, l, n, xx, length))
                    if vv < -tol:
                        fail("T=%d link %s: vehicle %s has speed %r" % (s.T, l, n, vv))
                    if x0 is not None:
                        if xx < x0 - tol:
                            fail("T=%d link %s: vehicle %s moved backwards %r -> %r" % (s.T, l, n, x0, xx))
                        if xx > x0 + u * dt + tol * max(1, u * dt):
                            fail("T=%d link %s: vehicle %s advanced %r in one step, free-flow allows %r" % (s.T, l, n, xx - x0, u * dt))
                        if abs(vv * dt - (xx - x0)) > 1e-6 * max(1, u * dt):
                            fail("T=%d link %s: vehicle %s advanced %r but its speed %r says %r" % (s.T, l, n, xx - x0, vv, vv * dt))
                    if leader is not None and s.vehs[leader.veh][1] == l:
                        xl = s.vehs[leader.veh][2]
                        if changed:
                            if xx > xl + tol:
                                fail("T=%d link %s: vehicle %s (x=%r) overtook %s (x=%r) in lane %d" % (s.T, l, n, xx, leader.veh, xl, lane))
                        elif xl - xx < spacing - 1e-6 * max(1, spacing):
                            fail("T=%d link %s: vehicles %s and %s in lane %d are %r apart, jam spacing of a platoon is %r" % (
                                s.T, l, leader.veh, n, lane, xl - xx, spacing))
                if changed or not here:
                    continue
                # exact prediction(s)
                if new:
                    if x.prev is None:
                        e = [0.0]
                    else:
                        pl = L[x.prev]
                        pp = p.vehs[n]
                        if pp[1] != x.prev or abs(pp[2] - pl.length) > 1e-6 * max(1, pl.length):
                            fail("T=%d: vehicle %s passed from %s to %s without standing at its end (was at %r of %r)" % (
                                s.T, n, x.prev, l, pp[2], pl.length))
                        carry = max(0.0, pp[2] - pp[3] * dt + pl.u * dt - pl.length)
                        e0 = carry * u / pl.u
                        e = []
                        # the predecessor may itself leave in this step, before or after this entry (node order)
                        g = gone_lead.get((l, lane)) if leader is None else None
                        for ld in ([leader] if leader is not None else [None] + ([g] if g is not None else [])):
                            e1 = e0
                            if ld is not None and ld.tin < s.T:
                                lo = p.vehs[ld.veh]
                                e1 = min(e0, max(0.0, lo[2] - lo[3] * dt - spacing))
                            e.append(min(e1, length))
                        if leader is not None and s.vehs[leader.veh][1] != l:
                            e.append(min(e0, length))
                else:
                    e = [x0]
                preds = []
                for a in e:
                    pred = []
                    free = a + u * dt
                    pred.append(min(free, length))
                    if leader is not None:
                        if leader.tin == s.T:
                            xl = None
                        else:
                            xl = p.vehs[leader.veh][2]
                        bound = max(a, xl - spacing)
                        withl = min(free, bound, length)
                        gone = s.vehs[leader.veh][1] != l     # leader ended its trip within this step: either phase
                        pred = ([pred[-1]] if gone else []) + [withl]
                        if withl < min(free, length) - tol:
                            followed += 1
                    if min(free, length) >= a + u * dt - tol:
                        fast += 1
                    preds += pred
                pred = preds
                if not any(abs(st[2] - q) <= 1e-6 * max(1, length) for q in pred):
                    fail("T=%d link %s: vehicle %s is at x=%r; from x=%r with leader %s it must be at %s (u=%s, dt=%s, spacing=%s)" % (
                        s.T, l, n, st[2], e, leader and (leader.veh, p.vehs.get(leader.veh)), pred, u, dt, spacing))
        for n, x in list(cur.items()):
            if x.tout == s.T and x.exit in ("end", "abort"):
                del cur[n]
    return followed, maxon, fast


def check_logs(W, L, by_link, dn, dt):
    """Recorded positions (taken before the movement of a step): nobody is nearer to where its leader was one step before than the jam spacing allows."""
    pos = {}
    for n, v in W.VEHICLES.items():
        pos[n] = {(int(round(t / dt)), l if isinstance(l, str) else l.name): x
                  for t, st, l, x in zip(v.log_t, v.log_state, v.log_link, v.log_x) if st == "run"}
    for l, xs in by_link.items():
        sp = L[l].delta_per_lane * dn
        lanes = {}
        for x in sorted(xs, key=lambda x: x.tin):
            if x.lane is None:
                continue
            a, lanes[x.lane] = lanes.get(x.lane), x
            if a is None or a.tin == x.tin or a.veh == x.veh:
                continue
            T = x.tin
            while (T, l) in pos[x.veh] and (a.tout is None or T < a.tout):
                xx = pos[x.veh][T, l]
                old = pos[x.veh].get((T - 1, l), 0.0)
                led = pos[a.veh].get((T - 1, l))
                if (T, l) in pos[a.veh] and led is not None and xx > max(old, led - sp) + 1e-6 * max(1, sp):
                    fail("T=%d link %s: vehicle %s recorded at x=%r (before: %r), its leader %s was at %r one step earlier and the jam spacing is %r" % (T, l, x.veh, xx, old, a.veh, led, sp), "log")
                T += 1


def make(cpp):
    def check(spec):
        from vlib import env
        ux = env.setup(cpp=cpp)
        W = scen.build(ux, spec, cpp=cpp)
        tr = scen.run_traced(W, cpp)
        followed, maxon, fast = check_history(W, tr, cpp)
        tags = []
        if followed: tags.append("held by leader")
        if fast: tags.append("free flow")
        if any(l.number_of_lanes > 1 for l in W.LINKS): tags.append("multilane")
        return Info(followed and maxon > 1, tags)
    return check


def make_changes(cpp):
    """Speed limits, jam densities, capacities changed during the run: order, direction and range must survive."""
    def check(case):
        from vlib import env
        ux = env.setup(cpp=cpp)
        spec = case["spec"]
        W = scen.build(ux, spec, cpp=cpp)
        ev = {}
        for c in case["changes"]:
            ev.setdefault(c["T"], []).append(c)
        did = [0]

        def on_step(W, T):
            for c in ev.get(T, []):
                l = W.LINKS[c["link"] % len(W.LINKS)]
                if c["what"] == "u":
                    umax[l.name] = max(umax[l.name], c["v"])
                    l.change_free_flow_speed(c["v"])
                elif c["what"] == "cap_in":
                    l.capacity_in = c["v"]
                elif c["what"] == "cap_out":
                    l.capacity_out = c["v"]
                did[0] += 1
        umax = {l.name: l.u for l in W.LINKS}
        tr = scen.run_traced(W, cpp, on_step)
        # the speed limit in force is the one at that step: judge with the largest used so far
        for l in W.LINKS:
            if l.u < umax[l.name]:
                l.change_free_flow_speed(umax[l.name])
        check_history(W, tr, cpp, changed=True)
        return Info(did[0] > 0 and any(v.state != "home" for v in W.VEHICLES.values()), ["changed"] if did[0] else [])
    return check


def changes_strategy():
    from hypothesis import strategies as st
    return st.fixed_dictionaries({
        "spec": scen.scenario_strategy(min_platoons=5),
        "changes": st.lists(st.one_of(
            st.fixed_dictionaries({"T": st.integers(1, 60), "link": st.integers(0, 20), "what": st.just("u"), "v": st.sampled_from([5, 10, 20, 30, 2.5])}),
            st.fixed_dictionaries({"T": st.integers(1, 60), "link": st.integers(0, 20), "what": st.sampled_from(["cap_in", "cap_out"]),
                                   "v": st.sampled_from([0, 0.2, 0.5, 1.0])})), min_size=1, max_size=4)})


PARTS = [
    Part("python", lambda: scen.scenario_strategy(min_platoons=3), make(False), 3000, 60000),
    Part("cpp", lambda: scen.scenario_strategy(min_platoons=3), make(True), 3000, 60000, engine="cpp"),
    Part("python-changes", changes_strategy, make_changes(False), 800, 16000),
    Part("cpp-changes", changes_strategy, make_changes(True), 800, 16000, engine="cpp"),
]
