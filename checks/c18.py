"""C18: Edie's space-time states, MFD values and accumulated counts against exact integration of the logged trajectories."""
import math
from vlib.core import Part, Info, fail, Skip
from vlib import scen, ops

CPP = True
RULE = ("random scenarios in both engines with random aggregation intervals, cell sizes (finer, coarser than and not dividing the link) and link subsets, states computed once, repeatedly and also in the middle of the run; "
        "non-trivial: vehicles crossed several cells and intervals and some link held a queue")
BUDGET = {"quick": 200, "thorough": 3000}
ASSUMPTIONS = ["the states cover the whole intervals that fit into the simulated period (the table lists them)",
               "a vehicle's movement between two records belongs to the interval in which it starts (one time step of blur per vehicle and interval)",
               "free-flow speeds are not changed during the run (the extrapolation to the ends of a link uses the current one)"]


def visits_of(W, v):
    """Visits of a vehicle as (link, [(t, x), ...], left) from its log."""
    out, last = [], None
    ts, ls, xs = list(v.log_t), list(v.log_link), list(v.log_x)
    for t, l, x in zip(ts, ls, xs):
        if l == -1 or l is None:
            if out:
                last = None
            continue
        if last is None or l != last:
            out.append([W.get_link(l), []])
            last = l
        out[-1][1].append((t, x))
    res = []
    for i, (l, p) in enumerate(out):
        res.append((l, p, i + 1 < len(out) or v.state == "end"))
    return res


def extend(l, p, dt):
    """The trajectory on the link extrapolated at free flow to its ends, where the next point is within a step."""
    p = list(p)
    u = l.u
    t, x = p[-1]
    if l.length - u * dt - 1e-6 <= x < l.length and (l.length - x) / u > 0.01 * dt:
        p.append((t + (l.length - x) / u, l.length))
    t, x = p[0]
    if x != 0 and x / u > 0.01 * dt:
        p.insert(0, (t - x / u, 0))
    return p


def clip(a, b, lo, hi):
    return max(0.0, min(b, hi) - max(a, lo))


def integrate(W, dte, cells):
    """Exact time and distance per link, interval and cell, and how much may be counted in a neighbouring interval."""
    nt = int(W.TMAX / dte)
    acc = {l.name: [[[0.0, 0.0, 0.0, 0.0] for _ in cells[l.name]] for _ in range(nt + 2)] for l in W.LINKS}
    per = {l.name: [0, 0.0, 0.0, 0.0, 0.0, 0] for l in W.LINKS}
    dn = W.DELTAN
    for v in W.VEHICLES.values():
        for (l, p, left) in visits_of(W, v):
            e = extend(l, p, W.DELTAT)
            r = per[l.name]
            r[0] += 1
            r[1] += dn * (p[-1][0] - p[0][0])
            r[2] += dn * (p[-1][1] - p[0][1])
            r[3] += dn * (e[-1][0] - e[0][0])
            r[4] += dn * (e[-1][1] - e[0][1])
            if left:
                r[5] += 1
                if e[-1][1] < l.length - 0.011 * l.u * W.DELTAT - 1e-6 or e[0][1] > 0.011 * l.u * W.DELTAT + 1e-6:
                    fail("vehicle %s left link %s (length %s), but its records there are from x=%s to x=%s" % (v.name, l.name, l.length, p[0][1], p[-1][1]), "incomplete")
            a = acc[l.name]
            cs = cells[l.name]
            for (t0, x0), (t1, x1) in zip(e, e[1:]):
                if t1 <= t0:
                    continue
                i0 = int(t0 // dte)
                i1 = max(i0, math.ceil(t1 / dte - 1e-9) - 1)
                b0 = round(t0 / dte) * dte      # starts within rounding of the border of two intervals
                near = round(t0 / dte) if t0 != b0 and abs(t0 - b0) < 1e-9 * max(1, t0) else None
                for j, (c0, c1) in enumerate(cs):
                    if x1 > x0:
                        if x1 < c0 or x0 > c1:
                            continue
                        f0, f1 = max(0.0, (c0 - x0) / (x1 - x0)), min(1.0, (c1 - x0) / (x1 - x0))
                        if f1 <= f0:
                            continue
                    else:
                        if not (c0 <= x0 < c1 or (j == len(cs) - 1 and x0 >= c1 - 1e-9)):
                            if abs(x0 - c0) < 1e-6 or abs(x0 - c1) < 1e-6:
                                for i in range(max(0, i0), min(i1, nt + 1) + 1):
                                    a[i][j][2] += dn * (t1 - t0)
                            continue
                        f0, f1 = 0.0, 1.0
                        if abs(x0 - c0) < 1e-6 or abs(x0 - c1) < 1e-6:     # a stop on the border of two cells
                            for i in range(max(0, i0), min(i1, nt + 1) + 1):
                                a[i][j][2] += dn * (t1 - t0)
                    s, t = t0 + f0 * (t1 - t0), t0 + f1 * (t1 - t0)
                    vel = (x1 - x0) / (t1 - t0)
                    for i in range(max(0, i0), min(i1, nt + 1) + 1):
                        c = clip(s, t, i * dte, (i + 1) * dte)
                        a[i][j][0] += dn * c
                        a[i][j][1] += dn * c * vel
                        if i1 != i0:
                            a[i][j][2] += dn * (t - s)
                            a[i][j][3] += dn * (t - s) * vel
                    if near is not None:
                        for q in (near - 1, near):
                            if 0 <= q <= nt + 1:
                                a[q][j][2] += dn * (t - s)
                                a[q][j][3] += dn * (t - s) * vel
    return acc, per, nt


def table(W):
    df = W.analyzer.link_traffic_state_to_pandas()
    out = {l.name: {} for l in W.LINKS}
    for r in df.to_dict("records"):
        k = (r["t"], r["x"])
        if k in out[r["link"]]:
            fail("the state of %s at %s is listed twice" % (r["link"], k), "rows")
        out[r["link"]][k] = r
    return out


def make(cpp):
    def check(case):
        from vlib import env
        ux = env.setup(cpp=cpp)
        spec = case["spec"]
        dt = spec["W"]["deltan"] * spec["W"]["reaction_time"]
        dte = case["dte"] * dt if isinstance(case["dte"], (int, float)) else spec["W"]["tmax"]
        W = scen.build(ux, spec, cpp=cpp, eular_dt=dte)
        scen.finalize(W)
        if W.TSIZE == 0:
            raise Skip("no step")
        if case["mid"]:
            ops.run_events(W, cpp, case["events"], upto=min(case["mid"], W.TSIZE))
            table(W)
        ops.run_events(W, cpp, [e for e in case["events"] if e["T"] >= W.T])
        tab = table(W)
        if case["twice"] and str(tab) != str(table(W)):
            fail("asked twice, the states differ", "twice")
        cells = {}
        nt = int(W.TMAX / dte)
        ts = [i * dte for i in range(nt)]
        for l in W.LINKS:
            rows = tab[l.name]
            if nt == 0:
                cells[l.name] = [(0, l.length)]
                continue
            got = sorted({k[0] for k in rows})
            if len(got) != nt or any(abs(a - b) > 1e-6 * max(1, b) for a, b in zip(got, ts)):
                fail("link %s has states at %s, expected every %s s until %s" % (l.name, got[:5], dte, W.TMAX), "rows")
            cs = sorted((k[1], r["delta_x"]) for k, r in rows.items() if k[0] == got[0])
            if len(rows) != len(cs) * nt:
                fail("link %s: %d states for %d cells and %d intervals" % (l.name, len(rows), len(cs), nt), "rows")
            x = 0.0
            for a, w in cs:
                if abs(a - x) > 1e-6 * l.length or w <= 0:
                    fail("link %s: cells %s do not follow each other" % (l.name, cs), "cells")
                x = a + w
            if abs(x - l.length) > 1e-6 * l.length:
                fail("link %s (length %s): its cells of %s m cover %s m" % (l.name, l.length, l.edie_dx, x), "cover")
            cells[l.name] = [(a, a + w) for a, w in cs[:-1]] + [(cs[-1][0], max(l.length, x))]
        acc, per, _ = integrate(W, dte, cells)
        queue, multi = False, 0
        whole = abs(W.TMAX / dte - nt) < 1e-9
        sums = {}
        for l in W.LINKS:
            tT = tD = 0.0
            eT = eD = xT = xD = bT = 0.0
            S = sums[l.name] = []
            for i in range(nt):
                si = sd = 0.0
                for j, (c0, c1) in enumerate(cells[l.name]):
                    r = look(tab, l.name, ts[i], c0)
                    q, k, v = r["q"], r["k"], r["v"]
                    area = r["delta_t"] * r["delta_x"]
                    if abs(r["delta_t"] - dte) > 1e-9 * dte:
                        fail("link %s: interval of %s s, asked for %s" % (l.name, r["delta_t"], dte), "rows")
                    if not (q >= 0 and k >= 0):
                        fail("link %s cell %s: density %s, flow %s" % (l.name, (ts[i], c0), k, q), "state")
                    if k > 0 and abs(v * k - q) > 1e-9 * max(1, q) or k == 0 and (q != 0 or abs(v - l.u) > 1e-9 * l.u):
                        fail("link %s cell %s: flow %s, density %s, speed %s (free-flow %s)" % (l.name, (ts[i], c0), q, k, v, l.u), "speed")
                    T, D, bt, bd = acc[l.name][i][j]
                    tol = 1e-6 * max(1.0, T, area)
                    told = tol * max(1.0, l.u)
                    if abs(k * area - T) > bt + tol:
                        fail("link %s cell t=%s x=%s: time spent %s, from the trajectories %s (blur %s)" % (l.name, ts[i], c0, k * area, T, bt), "time")
                    if abs(q * area - D) > bd + told:
                        fail("link %s cell t=%s x=%s: distance %s, from the trajectories %s (blur %s)" % (l.name, ts[i], c0, q * area, D, bd), "distance")
                    blur = bt / area
                    if "jam" not in case["ops"] and k > l.kappa + (1 + dt / dte) * W.DELTAN * l.number_of_lanes / r["delta_x"] + blur + 1e-9:
                        fail("link %s cell %s: density %s, jam density %s" % (l.name, (ts[i], c0), k, l.kappa), "jam")
                    si += k * area
                    sd += q * area
                    if k > 1.5 * l.capacity / l.u:
                        queue = True
                    multi += k > 0
                tT += si
                tD += sd
                S.append((si, sd))
            eT = sum(x[0] for i in range(nt) for x in acc[l.name][i])
            if whole and nt:
                n, r1, r2, f1, f2, nl = per[l.name]
                late = sum(x[0] + x[2] for i in (nt, nt + 1) for x in acc[l.name][i]) + sum(x[2] for x in acc[l.name][nt - 1])
                if abs(tT - f1) > late + 1e-6 * max(1, f1):
                    fail("link %s: total time in its cells %s, its vehicles spent %s" % (l.name, tT, f1), "total")
                if tT > r1 + n * W.DELTAN * 2.02 * W.DELTAT + 1e-6 or tT < r1 - late - 1e-6 * max(1, r1):
                    fail("link %s: total time in its cells %s, recorded stays last %s in total" % (l.name, tT, r1), "total")
                if not late and abs(tD - f2) > 1e-6 * max(1, f2):
                    fail("link %s: total distance in its cells %s, its vehicles drove %s" % (l.name, tD, f2), "total")
                dep = float(list(l.cum_departure)[-1]) if len(l.cum_departure) else 0
                # accumulated counts
                ca, cd = list(l.cum_arrival), list(l.cum_departure)
                stay = sum(a - d for a, d in zip(ca, cd)) * W.DELTAT
                if abs(stay - r1) > (n * W.DELTAN) * 2 * W.DELTAT + 1e-6:
                    fail("link %s: time between its accumulated counts %s, recorded stays %s (%d visits)" % (l.name, stay, r1, n), "counts")
                if ca and (ca[-1] != n * W.DELTAN and not ca[-1] - W.DELTAN * l.number_of_lanes * 4 <= n * W.DELTAN <= ca[-1]):
                    fail("link %s: %s arrivals counted, %d vehicles recorded on it" % (l.name, ca[-1], n * W.DELTAN), "counts")
        # macroscopic values
        for sub in case["subsets"]:
            L = None if sub is None else [W.LINKS[i % len(W.LINKS)] for i in sub]
            arg = None if L is None else [l.name if i % 2 else l for i, l in enumerate(L)]
            df = W.analyzer.mfd_to_pandas(arg).to_dict("records")
            LL = {l.name: l for l in (L if L is not None else W.LINKS)}
            if len(df) != nt:
                fail("mfd table of %s has %d rows, %d intervals" % (sorted(LL), len(df), nt), "mfd")
            length = sum(l.length for l in LL.values())
            for i, r in enumerate(df):
                k = sum(sums[n][i][0] for n in LL) / (length * dte)
                q = sum(sums[n][i][1] for n in LL) / (length * dte)
                if abs(r["t"] - ts[i]) > 1e-6 * max(1, ts[i]) or abs(r["network_k"] - k) > 1e-9 * max(1, k) or abs(r["network_q"] - q) > 1e-9 * max(1, q):
                    fail("mfd of %s at %s: density %s, flow %s; the links' cells give %s, %s" % (sorted(LL), ts[i], r["network_k"], r["network_q"], k, q), "mfd")
        return Info(multi >= 4 and queue, ["computed during the run"] * bool(case["mid"]) + ["own cell size"] * any("eular_dx" in l for l in spec["links"]) + ["incomplete last interval"] * (not whole))
    return check


def look(tab, name, t, x):
    rows = tab[name]
    r = rows.get((t, x))
    if r is not None:
        return r
    for k, r in rows.items():
        if abs(k[0] - t) < 1e-6 * max(1, t) and abs(k[1] - x) < 1e-6 * max(1, x):
            return r
    fail("link %s: no state at t=%s x=%s" % (name, t, x), "rows")


KINDS = ["cap_in", "cap_out", "node_cap", "signal", "signal2", "priority", "demand", "vehicle", "jam"]


def strategy():
    from hypothesis import strategies as st

    @st.composite
    def gen(draw):
        spec = draw(scen.scenario_strategy(max_steps=60, max_platoons=40, reactions=[1, 2, 0.5], odd_tmax=False))
        for l in spec["links"]:
            if draw(st.integers(0, 4)) == 0:
                l["eular_dx"] = round(l["length"] / draw(st.sampled_from([1, 2, 3.5, 7, 0.6, 2.5])), 2)
        n = int(spec["W"]["tmax"] / (spec["W"]["deltan"] * spec["W"]["reaction_time"]))
        ev = draw(ops.s_timed(n, KINDS, max_size=3)) if draw(st.booleans()) else []
        return {"spec": spec, "dte": draw(st.sampled_from([1, 2, 5, 4.5, 10, 7, n / 2, "all", 3, n / 4])), "events": ev, "ops": sorted({e["op"]["k"] for e in ev}),
                "mid": draw(st.sampled_from([0, 0, 5, 12, 30])), "twice": draw(st.booleans()),
                "subsets": draw(st.lists(st.one_of(st.none(), st.lists(st.integers(0, 20), min_size=1, max_size=4)), min_size=1, max_size=3))}
    return gen()


PARTS = [
    Part("python", strategy, make(False), 2500, 40000),
    Part("cpp", strategy, make(True), 2500, 40000, engine="cpp"),
]
