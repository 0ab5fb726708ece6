"""C05: the life of every vehicle and all of its records against the step-by-step observation of the run."""
from vlib.core import Part, Info, fail, close
from vlib import scen, trace

CPP = True
RULE = ("random scenarios (also with several lanes, short links, dead ends, aborted and unfinished trips, run-time added vehicles), every vehicle; "
        "non-trivial: some vehicle used two or more links and some trip ended or was aborted")
BUDGET = {"quick": 200, "thorough": 3000}


def check_vehicle(W, tr, n, v, cpp, vis, tadd, reach_ok, tags):
    dt = W.DELTAT
    vs = vis[n]
    first = next((s.T for s in tr if n in s.vehs), None)
    endT = next((s.T for s in tr if n in s.vehs and s.vehs[n][0] in ("end", "abort")), None)
    state = v.state
    dep = v.departure_time
    last = tr[-1].T
    if first is None:
        if dep <= last and tadd <= last:
            fail("vehicle %s departs at step %s but was still at home at the end (step %d)" % (n, dep, last))
        if state != "home" or vs:
            fail("vehicle %s never left home, but its state is %s and it visited %s" % (n, state, [x.link for x in vs]))
    else:
        if first != max(dep, tadd):
            fail("vehicle %s departs at step %s (added at %s) but joined the queue in step %d" % (n, dep, tadd, first))
    if not close(v.departure_time_in_second, dep * dt):
        fail("vehicle %s: departure time in seconds %r, step %r of %r" % (n, v.departure_time_in_second, dep, dt))
    # chain of links
    if vs:
        if vs[0].tin <= first:
            fail("vehicle %s entered %s in step %d, it joined the queue in step %d" % (n, vs[0].link, vs[0].tin, first))
        L = {l.name: l for l in W.LINKS}
        if L[vs[0].link].start_node is not v.orig:
            fail("vehicle %s entered at link %s, its origin is %s" % (n, vs[0].link, v.orig.name))
        for a, b in zip(vs, vs[1:]):
            if L[a.link].end_node is not L[b.link].start_node:
                fail("vehicle %s passed from %s to unconnected %s" % (n, a.link, b.link))
            if b.tin <= a.tin:
                fail("vehicle %s entered %s in step %d and %s in step %d" % (n, a.link, a.tin, b.link, b.tin))
        for a in vs[:-1]:
            if L[a.link].end_node is v.dest:
                fail("vehicle %s reached its destination %s on link %s and drove on to another link" % (n, v.dest.name, a.link))
    if state == "end":
        if not vs or L[vs[-1].link].end_node is not v.dest:
            fail("vehicle %s ended on link %s, its destination is %s" % (n, vs and vs[-1].link, v.dest.name))
    if state == "abort":
        tags.add("abort")
        nd = L[vs[-1].link].end_node
        if nd.outlinks or nd is v.dest:
            fail("vehicle %s aborted at node %s (destination %s, %d exits)" % (n, nd.name, v.dest.name, len(nd.outlinks)))
        if reach_ok(n):
            fail("vehicle %s was aborted although %s can be reached from %s" % (n, v.dest.name, v.orig.name), "abort-reachable")
    # trip record
    if state == "end":
        if v.arrival_time != endT or not close(v.travel_time, (endT - dep) * dt, 1e-9):
            fail("vehicle %s ended in step %s; arrival_time=%s travel_time=%s departure=%s dt=%s" % (n, endT, v.arrival_time, v.travel_time, dep, dt))
    else:
        if v.arrival_time != -1 or v.travel_time != -1:
            fail("vehicle %s is in state %s but has arrival_time=%s travel_time=%s" % (n, state, v.arrival_time, v.travel_time))
    if bool(v.flag_trip_aborted) != (state == "abort") and endT is not None:
        fail("vehicle %s: state %s, abort flag %s" % (n, state, v.flag_trip_aborted))
    # distance
    if vs:
        d = sum(L[x.link].length for x in vs[:-1])
        if state in ("end", "abort"):
            d += L[vs[-1].link].length
        else:
            d += tr[-1].vehs[n][2]
        if not close(v.distance_traveled, d, 1e-7):
            fail("vehicle %s (%s) drove %s along %s but distance_traveled is %r (links say %r)" % (
                n, state, d, [x.link for x in vs], v.distance_traveled, d), "distance")
    # link passage record
    rec = [(float(t), l if isinstance(l, (str, int)) else l.name) for t, l in v.log_t_link]
    want = [(float(dep * dt), "home")] + [(x.tin * dt, x.link) for x in vs] + ([(endT * dt, "end")] if state == "end" else [])
    if rec[0][1] != "home" or abs(rec[0][0] - want[0][0]) >= (1 if not cpp else 1e-9) or [r[1] for r in rec] != [w[1] for w in want] or any(
            abs(r[0] - w[0]) > 1e-9 * max(1, w[0]) for r, w in zip(rec[1:], want[1:])):
        fail("vehicle %s: link record %s, observed %s" % (n, rec, want))
    for arr in (True, False):
        for de in (True, False):
            route, ts = v.traveled_route(include_arrival_time=arr, include_departure_time=de)
            if [l.name for l in route] != [x.link for x in vs]:
                fail("vehicle %s: traveled route %s, observed %s" % (n, [l.name for l in route], [x.link for x in vs]))
            w = ([rec[0][0]] if de else []) + [x.tin * dt for x in vs] + (([endT * dt] if state == "end" else [-1]) if arr else [])
            if len(ts) != len(w) or any(abs(a - b) > 1e-9 * max(1, abs(b)) for a, b in zip(ts, w)):
                fail("vehicle %s: traveled_route times %s, observed %s" % (n, list(ts), w))
    return first, endT


def expected_logs(W, tr, n, v, vis, tadd, first, endT):
    """One or two acceptable logs [(t, state, link, x, v, lane)]: a trip may end before or after this step's movement."""
    vs = vis[n]
    out = []
    k = -1
    L = {l.name: l for l in W.LINKS}
    for s in tr:
        T = s.T
        if T < tadd:
            continue
        if endT is not None and T > endT:
            break
        while k + 1 < len(vs) and vs[k + 1].tin <= T:
            k += 1
        p = tr[T - 1].vehs.get(n) if T else None
        if first is None or T <= first:
            out.append((T, "home", -1, -1, -1, -1))
        elif k < 0:
            out.append((T, "wait", -1, -1, -1, -1))
        else:
            x = vs[k]
            if x.tin == T:
                if x.prev is None:
                    out.append((T, "run", x.link, 0.0, L[x.link].u, x.lane))
                else:
                    out.append((T, "run", x.link, None, None, x.lane))
            else:
                out.append((T, "run", x.link, p[2], p[3], p[4]))
    res = [out]
    if endT is not None:
        st = v.state
        res = [out + [(endT, st, -1, -1, -1, -1)]]
        if out and out[-1][0] == endT:
            res.append(out[:-1] + [(endT, st, -1, -1, -1, -1)])
    return res


def check_logs(W, tr, n, v, cpp, vis, tadd, first, endT, lead):
    dt = W.DELTAT
    lt = [float(x) for x in v.log_t]
    ls = list(v.log_state)
    lk = [l if isinstance(l, int) else l.name for l in v.log_link]
    lx, lv, ll, lsp = (list(map(float, a)) for a in (v.log_x, v.log_v, v.log_lane, v.log_s))
    if not (len(lt) == len(ls) == len(lk) == len(lx) == len(lv) == len(ll) == len(lsp)):
        fail("vehicle %s: log columns have lengths %s" % (n, [len(a) for a in (lt, ls, lk, lx, lv, ll, lsp)]))
    err = None
    for want in expected_logs(W, tr, n, v, vis, tadd, first, endT):
        err = None
        if len(want) != len(lt):
            err = "has %d entries, %d steps were observed" % (len(lt), len(want))
            continue
        for i, (T, s, l, x, sp, lane) in enumerate(want):
            got = (lt[i], ls[i], lk[i], lx[i], lv[i], ll[i])
            if abs(lt[i] - T * dt) > 1e-9 * max(1, T * dt) or ls[i] != s or lk[i] != l:
                err = "entry %d is %s, observed %s" % (i, got, (T * dt, s, l, x, sp, lane))
                break
            if x is not None and abs(lx[i] - x) > 1e-7 * max(1, abs(x)) or sp is not None and abs(lv[i] - sp) > 1e-7 * max(1, abs(sp)) or (lane is not None and ll[i] != lane):
                err = "entry %d is %s, observed %s" % (i, got, (T * dt, s, l, x, sp, lane))
                break
            if x is None and not (-1e-9 <= lx[i] <= W.get_link(l).length + 1e-9):
                err = "entry %d has x=%r on link %s" % (i, lx[i], l)
                break
            if s != "run":
                if lsp[i] != -1:
                    err = "entry %d: spacing %r in state %s" % (i, lsp[i], s)
                    break
            else:
                ld = lead(n, T)
                xs = []
                if ld is not None:
                    for S in (T - 1, T):
                        a = tr[S].vehs.get(ld) if S >= 0 else None
                        if a is not None and a[1] == l:
                            xs.append(a[2] - lx[i])
                both = len(xs) == 2
                if lsp[i] == -1 and both or (lsp[i] != -1 and not any(abs(lsp[i] - q) <= 1e-6 * max(1, abs(q)) for q in xs)):
                    if not (ld is not None and len(xs) < 2):     # leader entered or left in this very step: its position then is not observed
                        err = "entry %d: spacing %r, leader %s is %s ahead" % (i, lsp[i], ld, xs)
                        break
        if err is None:
            break
    if err:
        fail("log of vehicle %s %s" % (n, err))
    # position from the log
    x2 = {}
    for i in range(len(lt)):
        x2.setdefault(int(round(lt[i] / dt)), i)
    for T, i in list(x2.items())[::7]:
        if tadd:
            break
        x, y = v.get_xy_coords(T * dt)
        if lk[i] == -1:
            w = (-1, -1)
        else:
            l = W.get_link(lk[i])
            r = lx[i] / l.length
            w = (l.start_node.x + r * (l.end_node.x - l.start_node.x), l.start_node.y + r * (l.end_node.y - l.start_node.y))
        if abs(x - w[0]) > 1e-7 or abs(y - w[1]) > 1e-7:
            fail("vehicle %s at time %s: get_xy_coords gives %s, its log says %s on %s = %s" % (n, T * dt, (x, y), lx[i], lk[i], w))
    p = v.get_xy_coords()
    if v.link is None:
        w = (-1, -1)
    else:
        r = v.x / v.link.length
        a, b = v.link.start_node, v.link.end_node
        w = (a.x + r * (b.x - a.x), a.y + r * (b.y - a.y))
    if abs(p[0] - w[0]) > 1e-7 or abs(p[1] - w[1]) > 1e-7:
        fail("vehicle %s (%s): current coordinates %s, expected %s" % (n, v.state, p, w))


def leaders(W, vis):
    """lead(n, T): vehicle directly ahead of n in its lane among those on the link at the beginning of T (or entering at T)."""
    by = {}
    for n, vs in vis.items():
        for x in vs:
            by.setdefault(x.link, []).append(x)
    ahead = {}
    for l, xs in by.items():
        xs.sort(key=lambda x: x.tin)
        for i, x in enumerate(xs):
            c = [y for y in xs[:i] if y.lane == x.lane and y.tin < x.tin and (y.tout is None or y.tout >= x.tin)]
            ahead[x.veh, l, x.tin] = c[-1] if c else None

    def lead(n, T):
        x = [x for x in vis[n] if x.tin <= T][-1]
        y = ahead[n, x.link, x.tin]
        if y is None or (y.tout is not None and y.tout < T):
            return None
        return y.veh
    return lead


def make(cpp):
    def check(case):
        from vlib import env
        ux = env.setup(cpp=cpp)
        spec = case["spec"]
        W = scen.build(ux, spec, cpp=cpp)
        tadd = {n: 0 for n in W.VEHICLES}
        ev = {}
        for c in case["late"]:
            ev.setdefault(c["T"], []).append(c)
        n0 = len(W.VEHICLES) - len(spec["vehicles"])
        constrained = {list(W.VEHICLES)[n0 + i] for i, v in enumerate(spec["vehicles"]) if v.get("prefer") or v.get("avoid") or v.get("route")}

        def on_step(W, T):
            for c in ev.get(T, []):
                d = spec["demands"][c["od"] % len(spec["demands"])] if spec["demands"] else None
                if d is None:
                    continue
                before = set(W.VEHICLES)
                W.addVehicle(d["orig"], d["dest"], max(0, T + c["ahead"]), departure_time_is_time_step=1)
                for n in set(W.VEHICLES) - before:
                    tadd[n] = T
        tr = scen.run_traced(W, cpp, on_step)
        if not tr:
            return Info(False)
        vis = trace.visits(W, tr)
        lead = leaders(W, vis)
        names = [n["name"] for n in spec["nodes"]]
        openE = [(names.index(l["start"]), names.index(l["end"])) for l in spec["links"] if l.get("capacity_in") != 0]
        R = scen.reach(len(names), openE)
        tags = set()

        def reach_ok(n):
            v = W.VEHICLES[n]
            if n in constrained or spec["W"].get("no_cyclic_routing"):
                return False
            return names.index(v.dest.name) in R[names.index(v.orig.name)]
        multi = done = 0
        for n, v in W.VEHICLES.items():
            first, endT = check_vehicle(W, tr, n, v, cpp, vis, tadd[n], reach_ok, tags)
            check_logs(W, tr, n, v, cpp, vis, tadd[n], first, endT, lead)
            multi += len(vis[n]) > 1
            done += v.state in ("end", "abort")
            tags.add(v.state)
        if any(tadd.values()): tags.add("added during the run")
        return Info(multi and done, sorted(tags))
    return check


def strategy():
    from hypothesis import strategies as st
    return st.fixed_dictionaries({
        "spec": scen.scenario_strategy(max_platoons=40, min_platoons=3),
        "late": st.one_of(st.just([]), st.lists(st.fixed_dictionaries({"T": st.integers(0, 30), "od": st.integers(0, 5), "ahead": st.integers(-2, 10)}), max_size=3))})


PARTS = [
    Part("python", strategy, make(False), 3500, 60000),
    Part("cpp", strategy, make(True), 3500, 60000, engine="cpp"),
]
