"""C24: every iteration of the traffic assignment solvers recomputed from the simulated worlds."""
import io, math, random, warnings, contextlib
from vlib.core import Part, Info, fail, Skip, close
from vlib import scen
from vlib.digest import digest, diff

CPP = True
RULE = ("random scenarios solved for user equilibrium and system optimum by every solver in both engines; all worlds the solver simulates are collected through the scenario builder, simulated again independently under the routes they "
        "drove, and all logged quantities recomputed from them; non-trivial: vehicles had better alternatives in some iteration")
BUDGET = {"quick": 300, "thorough": 4000}
ASSUMPTIONS = ["vehicles without own route constraints; all destinations reachable; the scenario builder returns the same scenario each time",
               "the route of a vehicle that does not finish an iteration is known only as far as it drove"]


def names(r):
    return tuple(l.name for l in r)


def quiet(f, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return f(*a, **k)


def trips(W):
    return [(n, v.orig.name, v.dest.name, v.departure_time_in_second) for n, v in W.VEHICLES.items()]


def driven(W):
    """Per vehicle: state, links driven, entry times (and arrival)."""
    out = {}
    for n, v in W.VEHICLES.items():
        r, ts = v.traveled_route()
        out[n] = (v.state, names(r), tuple(float(t) for t in ts))
    return out


def valid(W, r, o, d, what):
    cur = o
    for n in r:
        l = W.get_link(n)
        if l.start_node.name != cur:
            fail("%s: route %s is not connected at %s" % (what, list(r), n), "route")
        cur = l.end_node.name
    if cur != d:
        fail("%s: route %s ends at %s, the destination is %s" % (what, list(r), cur, d), "route")


def ttt(W):
    return sum(v.travel_time for v in W.VEHICLES.values() if v.state == "end") * W.DELTAN


def whole(logged, x):
    return logged in (int(x - 1e-6), int(x + 1e-6))


def builder(ux, spec, cpp, made, fin):
    def f():
        W = scen.build(ux, spec, cpp=cpp)
        if fin:
            scen.finalize(W)
        made.append(W)
        return W
    return f


def candidates(W, case, ods, k):
    """The route sets attached to a world, checked."""
    cand = {}
    for o, d in ods:
        rs = [tuple(r) for r in W.dict_od_to_routes[o, d]]
        what = "candidates %s->%s" % (o, d)
        if not rs or (k is not None and len(rs) > k):
            fail("%s: %d routes, at most %s were asked for" % (what, len(rs), k), "candidates")
        for r in rs:
            valid(W, r, o, d, what)
        cand[o, d] = rs
    return cand


def make_route_sets(W, ods, case):
    """Route sets in the documented format, by names or objects, every pair with one to four loop-free routes."""
    from vlib import ops
    out, plain = {}, {}
    for i, (o, d) in enumerate(ods):
        rs = ops.simple_routes(W, o, d, 6)
        q = case["pick"][i % len(case["pick"])]
        rs = [rs[(q + j) % len(rs)] for j in range(min(len(rs), 1 + q % 4))]
        plain[o, d] = [tuple(r) for r in rs]
        if q % 2:
            out[W.get_node(o), W.get_node(d)] = [[W.get_link(l) for l in r] for r in rs]
        else:
            out[o, d] = [list(r) for r in rs]
    return out, plain


def costs(W, kind, cpp):
    """Cost of a route from t0, and of the driven route with its real entry times."""
    from uxsim import Utilities as U
    dt = W.DELTAT

    def toll(l, t):
        return l.get_toll(int(t / dt) * dt if cpp else t)

    def of(r, t0, ts=None):
        links = [W.get_link(n) for n in r]
        t, c = t0, 0.0
        for i, l in enumerate(links):
            tt = float(l.actual_travel_time(t))
            c += tt
            if kind == "due":
                c += toll(l, ts[i] if ts is not None else t)
            t += tt
        if kind == "dso":
            c += quiet(U.estimate_congestion_externality_route, W, W.defRoute(list(r)), t0)
        return c
    return of


def d2d(cpp, kind):
    def check(case):
        from vlib import env
        ux = env.setup(cpp=cpp)
        spec = case["spec"]
        made = []
        f = builder(ux, spec, cpp, made, case["fin"])
        W0 = scen.build(ux, spec, cpp=cpp)
        want = trips(W0)
        if not want:
            raise Skip("no vehicles")
        scen.finalize(W0)
        if W0.TSIZE == 0:
            raise Skip("no step")
        nv, dn = len(want), W0.DELTAN
        ods = sorted({(o, d) for _, o, d, _ in want})
        from uxsim.DTAsolvers import SolverDUE, SolverDSO_D2D
        cls = SolverDUE if kind == "due" else SolverDSO_D2D
        solver = cls(f, cpp=cpp)
        kw = dict(swap_prob=case["p"], print_progress=case["progress"])
        given = None
        if case["sets"]:
            kw["route_sets"], given = make_route_sets(W0, ods, case)
        else:
            kw["n_routes_per_od"] = case["k"]
        p = case["p"]
        num = None
        if kind == "dso" and case["num"] is not None:
            num = min(case["num"], nv)
            kw["swap_num"] = num
        n = case["iters"]
        st = random.getstate()
        try:
            random.seed(case["seed"])
            sol = quiet(solver.solve, n, **kw)
            logs = {k: list(getattr(solver, k)) for k in ("ttts", "n_swaps", "potential_swaps", "t_gaps", "route_log", "cost_log", "dfs_link")}
            ran = [W for W in made if getattr(W, "T", 0) > 0]
            W_sol, W_mid = solver.W_sol, solver.W_intermid_solution
            # again, by the same solver or another one
            other = solver if case["same"] else cls(f, cpp=cpp)
            random.seed(case["seed"])
            quiet(other.solve, n, **kw)
            for k in logs:
                a, b = logs[k], list(getattr(other, k))
                if k == "dfs_link":
                    a, b = [d_.to_dict("list") for d_ in a], [d_.to_dict("list") for d_ in b]
                x = diff(a, b)
                if x:
                    fail("solved twice with the same seed%s: %s %s" % (" by one solver" if case["same"] else "", k, x), "repeat")
        finally:
            random.setstate(st)
        if len(ran) != n or any(len(logs[k]) != n for k in logs):
            fail("%d simulations, logs of %s for %d iterations" % (len(ran), {k: len(v) for k, v in logs.items()}, n), "iterations")
        if sol is not W_sol:
            fail("solve() returns another world than W_sol", "solution")
        pot_any, prev = 0, None
        full = []
        resim = {}
        for i, W in enumerate(ran):
            if trips(W) != want:
                fail("iteration %d: the trips of the scenario changed" % i, "trips")
            if given is None:
                cand = candidates(W, case, ods, case["k"])
            else:
                cand = {od: [tuple(r) for r in W.dict_od_to_routes[od]] for od in ods}
                if cand != given:
                    fail("iteration %d: the candidates are not the given route sets" % i, "candidates")
            dr = driven(W)
            for nm, o, d, t in want:
                if dr[nm][0] == "end":
                    valid(W, dr[nm][1], o, d, "iteration %d, vehicle %s" % (i, nm))
                if tuple(logs["route_log"][i][nm]) != dr[nm][1]:
                    fail("iteration %d: vehicle %s drove %s, %s is logged" % (i, nm, dr[nm][1], logs["route_log"][i][nm]), "route_log")
                c = dr[nm][2][-1] - dr[nm][2][0] if len(dr[nm][2]) else 0
                if dr[nm][0] == "end" and not (close(logs["cost_log"][i][nm], c)):
                    fail("iteration %d: vehicle %s took %s, %s is logged" % (i, nm, c, logs["cost_log"][i][nm]), "cost_log")
            if not whole(logs["ttts"][i], ttt(W)):
                fail("iteration %d: total travel time %s logged, %s from its vehicles" % (i, logs["ttts"][i], ttt(W)), "ttt")
            # who was told to drive what
            enforced = {}
            if prev is not None:
                pcand, pdr, pcost = prev
                swaps_lo = swaps_hi = 0
                for nm, o, d, t in want:
                    if pdr[nm][0] != "end":
                        continue
                    r0, cs = pdr[nm][1], pcost[nm]
                    options = {r0}
                    if cs is None:
                        options = {pcand[o, d][0]}
                    else:
                        m = min([c for c in cs["alt"]], default=math.inf)
                        better = {r for r, c in zip(pcand[o, d], cs["alt"]) if c <= m + 1e-6} if m < cs["cur"] + 1e-6 else set()
                        options |= better
                        same = r0 in better
                    now = dr[nm][1]
                    fit = {r for r in options if r == now or (dr[nm][0] != "end" and r[:len(now)] == now)}
                    if not fit:
                        fail("iteration %d: vehicle %s drove %s; its route was %s before and its best alternatives %s" % (i, nm, now, r0, sorted(options - {r0})), "choice")
                    enforced[nm] = fit
                    if cs is not None:
                        swaps_lo += all(r != r0 for r in fit)
                        swaps_hi += any(r != r0 for r in fit) or same
                if not swaps_lo * dn - 1e-9 <= logs["n_swaps"][i - 1] <= swaps_hi * dn + 1e-9:
                    fail("iteration %d: %s vehicles are said to change routes, between %s and %s do" % (i - 1, logs["n_swaps"][i - 1], swaps_lo * dn, swaps_hi * dn), "n_swaps")
            # costs, gaps and alternatives of this iteration
            of = costs(W, kind, cpp)
            memo = {}
            pc, gap, lo, hi = {}, 0.0, 0, 0
            for nm, o, d, t in want:
                state, r, ts = dr[nm]
                if state != "end":
                    continue
                if given is not None and r not in cand[o, d]:
                    pc[nm] = None
                    continue
                cur = of(r, ts[0], ts)
                alt = []
                for a in cand[o, d]:
                    if (a, ts[0]) not in memo:
                        memo[a, ts[0]] = of(a, ts[0])
                    alt.append(memo[a, ts[0]])
                pc[nm] = {"cur": cur, "alt": alt}
                m = min(alt)
                gap += max(0.0, cur - m)
                lo += m < cur - 1e-6
                hi += m < cur + 1e-6
            if not close(logs["t_gaps"][i], gap / nv, 1e-6):
                fail("iteration %d: a cost gap of %s per vehicle is logged, the difference to the cheapest routes is %s" % (i, logs["t_gaps"][i], gap / nv), "gap")
            if not lo * dn - 1e-9 <= logs["potential_swaps"][i] <= hi * dn + 1e-9:
                fail("iteration %d: %s vehicles are said to have a cheaper route, %s do" % (i, logs["potential_swaps"][i], lo * dn), "potential")
            ns, po = logs["n_swaps"][i] / dn, logs["potential_swaps"][i] / dn
            if ns > po + 1e-9:
                fail("iteration %d: %s route changes of %s vehicles with a cheaper route" % (i, ns, po), "n_swaps")
            if (num is None and p >= 1 or num == nv) and abs(ns - po) > 1e-9:
                fail("iteration %d: all must change (probability %s, number %s) but %s of %s do" % (i, p, num, ns, po), "probability")
            if num is None and p <= 0 and ns:
                fail("iteration %d: %s route changes with probability 0" % (i, ns), "probability")
            if num is not None and ns > num:
                fail("iteration %d: %s route changes, at most %d were allowed" % (i, ns, num), "probability")
            if num is None and 0 < p < 1:
                m, x = int(round(po)), int(round(ns))
                tail = lambda a, b: sum(math.comb(m, j) * p ** j * (1 - p) ** (m - j) for j in range(a, b + 1))
                if tail(x, m) < 1e-11 or tail(0, x) < 1e-11:
                    fail("iteration %d: %d of %d vehicles change routes with probability %s" % (i, x, m, p), "probability")
            pot_any += lo
            prev = (cand, dr, pc)
            # the same simulation by the public interface
            if all(len(s) == 1 for s in enforced.values()):
                R = scen.build(ux, spec, cpp=cpp)
                for nm, s in enforced.items():
                    R.VEHICLES[nm].enforce_route(list(s)[0])
                quiet(scen.run_full, R)
                x = diff(driven(R), dr)
                if x:
                    fail("iteration %d, simulated by itself with the same routes | by the solver: %s" % (i, x), "simulation")
                x = diff(R.analyzer.link_to_pandas().to_dict("list"), logs["dfs_link"][i].to_dict("list"))
                if x:
                    fail("iteration %d: link statistics by itself | logged: %s" % (i, x), "links")
                resim[i] = R
            full.append(all(dr[nm][0] == "end" for nm in dr))
        # which solution is returned
        if kind == "due":
            if W_sol is not ran[-1] or W_mid is not ran[-1]:
                fail("the solution is not the world of the last iteration", "solution")
            which = n - 1
        else:
            av = {i: sum(v.travel_time for v in W.VEHICLES.values()) / nv for i, W in enumerate(ran) if full[i]}
            if not av:
                if W_sol is not None:
                    fail("a solution is returned although no iteration finished all trips", "solution")
                return Info(pot_any > 0, ["none"])
            which = next((i for i in av if ran[i] is W_sol), None)
            if which is None or av[which] > min(av.values()) + 1e-9:
                fail("the solution is iteration %s of mean travel times %s" % (which, av), "solution")
        if which in resim:
            R = resim[which]
            for m in ("basic_to_pandas", "od_to_pandas", "link_to_pandas", "link_traffic_state_to_pandas" if which == n - 1 else "basic_to_pandas"):
                x = diff(quiet(getattr(R.analyzer, m)).to_dict("list"), quiet(getattr(W_sol.analyzer, m)).to_dict("list"))
                if x:
                    fail("%s of the solution (iteration %d): by itself | returned: %s" % (m, which, x), "analyzer")
            x = diff(digest(R, cpp, logs=which == n - 1 or cpp), digest(W_sol, cpp, logs=which == n - 1 or cpp))
            if x:
                fail("the solution (iteration %d): by itself | returned: %s" % (which, x), "digest")
        return Info(pot_any > 0, ["sets" if given is not None else "enumerated", "all finish" if all(full) else "unfinished", "num" if num is not None else "prob"])
    return check


def prefs(W):
    return {n: tuple(l.name if hasattr(l, "name") else l for l in v.links_prefer) for n, v in W.VEHICLES.items()}


def start_world(case, ux, spec, cpp):
    """The world to start from: none, a plain simulation, or a solution with route sets."""
    if case["init"] == "none":
        return None
    if case["init"] == "plain":
        W = scen.build(ux, spec, cpp=cpp)
        quiet(scen.run_full, W)
        return W
    from uxsim.DTAsolvers import SolverDUE
    s = SolverDUE(builder(ux, spec, cpp, [], False), cpp=cpp)
    quiet(s.solve, 2, n_routes_per_od=case["k"], swap_prob=0.5, print_progress=False)
    return s.W_sol


def fitness(W):
    return ttt(W) + sum(v.state != "end" for v in W.VEHICLES.values()) * W.DELTAN * W.TMAX


def check_start(W, init, cand, ods):
    """The solution that stands for the initial world: its routes, else the shortest candidates."""
    pr = prefs(W)
    for n, v in init.VEHICLES.items():
        r, ts = v.traveled_route()
        r = names(r)
        c = cand[v.orig.name, v.dest.name]
        if r in c:
            if pr[n] != r:
                fail("vehicle %s drove the candidate %s in the initial world and starts with %s" % (n, r, pr[n]), "start")
        elif case_short(init, c, v) is not None:
            best = case_short(init, c, v)
            tt = init.defRoute(list(pr[n])).actual_travel_time(v.departure_time_in_second)
            if tt > best + 1e-6:
                fail("vehicle %s drove none of its candidates in the initial world; it starts with one of travel time %s, the least is %s" % (n, tt, best), "start")


def case_short(W, c, v):
    return min(W.defRoute(list(r)).actual_travel_time(v.departure_time_in_second) for r in c)


def prep(case, cpp):
    from vlib import env
    ux = env.setup(cpp=cpp)
    spec = case["spec"]
    W0 = scen.build(ux, spec, cpp=cpp)
    want = trips(W0)
    if len(want) < 4:
        raise Skip("too few vehicles")
    scen.finalize(W0)
    if W0.TSIZE == 0:
        raise Skip("no step")
    return ux, spec, want, sorted({(o, d) for _, o, d, _ in want})


def logged(W, route, cost, what):
    dr = driven(W)
    ended = {n for n in dr if dr[n][0] == "end"}
    if set(route) != ended or set(cost) != ended:
        fail("%s: routes of %d and costs of %d vehicles logged, %d finished" % (what, len(route), len(cost), len(ended)), "log")
    for n in ended:
        if tuple(route[n]) != dr[n][1] or not close(cost[n], dr[n][2][-1] - dr[n][2][0]):
            fail("%s: vehicle %s drove %s in %s, logged are %s and %s" % (what, n, dr[n][1], dr[n][2][-1] - dr[n][2][0], route[n], cost[n]), "log")


def ga(cpp):
    def check(case):
        ux, spec, want, ods = prep(case, cpp)
        from uxsim.DTAsolvers import SolverDSO_GA
        outs = []
        st = random.getstate()
        try:
            for rep in range(2):
                made = []
                random.seed(case["seed"] + 1)
                init = start_world(case, ux, spec, cpp)
                with warnings.catch_warnings():
                    warnings.simplefilter("ignore")
                    s = SolverDSO_GA(builder(ux, spec, cpp, made, False))
                random.seed(case["seed"])
                sol = quiet(s.solve, case["gens"], n_routes_per_od=case["k"], pop_size=case["pop"], elite_size=case["elite"], mutation_occur_rate=case["mut"], mutation_gene_rate=case["mut"], n_crossover_points=case["points"],
                            print_progress=case["progress"], initial_solution_World=init)
                outs.append((s, sol, made, init))
        finally:
            random.setstate(st)
        (s, sol, made, init), (s2, _, _, _) = outs
        for k in ("ttts", "route_log", "cost_log"):
            x = diff(getattr(s, k), getattr(s2, k))
            if x:
                fail("the same seed gives another search: %s %s" % (k, x), "repeat")
        ran = [W for W in made if getattr(W, "T", 0) > 0]
        if init is None:
            init, ran = ran[0], ran[1:]
        G, P = case["gens"], case["pop"]
        if len(ran) != G * P or not (len(s.ttts) == len(s.route_log) == len(s.cost_log) == len(s.dfs_link) == G):
            fail("%d simulations and %s logs for %d generations of %d" % (len(ran), [len(s.ttts), len(s.route_log), len(s.cost_log), len(s.dfs_link)], G, P), "count")
        cand = None
        best = []
        for W in ran:
            if trips(W) != want:
                fail("the trips of the scenario changed", "trips")
            for n, (state, r, ts) in driven(W).items():
                if state == "end":
                    valid(W, r, W.VEHICLES[n].orig.name, W.VEHICLES[n].dest.name, n)
        cand = candidates(sol, case, ods, case["k"])
        for W in ran:
            pr = prefs(W)
            for n, o, d, t in want:
                if pr[n] not in cand[o, d]:
                    fail("vehicle %s prefers %s, which is no candidate" % (n, pr[n]), "domain")
        fits = []
        for g in range(G):
            pop = ran[g * P:(g + 1) * P]
            ft = [fitness(W) for W in pop]
            m = min(ft)
            fits.append(m)
            ok = [W for W, x in zip(pop, ft) if x <= m + 1e-6]
            if not any(whole(s.ttts[g], ttt(W)) for W in ok):
                fail("generation %d: total travel time %s logged, its best individual has %s" % (g, s.ttts[g], ttt(ok[0])), "ttt")
            W = next(W for W in ok if whole(s.ttts[g], ttt(W)))
            if len(ok) == 1:
                logged(W, s.route_log[g], s.cost_log[g], "generation %d" % g)
                x = diff(W.analyzer.link_to_pandas().to_dict("list"), s.dfs_link[g].to_dict("list"))
                if x:
                    fail("generation %d: link statistics of the best | logged: %s" % (g, x), "links")
        # the start: vehicles with a candidate route keep it in the first individual
        pr = prefs(ran[0])
        for n, v in init.VEHICLES.items():
            r = names(v.traveled_route()[0])
            if r in cand[v.orig.name, v.dest.name] and pr[n] != r:
                fail("vehicle %s drove the candidate %s in the initial world, the first individual has %s" % (n, r, pr[n]), "start")
        if sol is not s.W_sol or not any(sol is W for W in ran):
            fail("the solution is not a simulated world", "solution")
        if fitness(sol) > fits[-1] + 1e-6:
            fail("the solution has objective %s, the best of the last generation %s (generations %s)" % (fitness(sol), fits[-1], fits), "solution")
        if case["elite"] > 0 and any(b > a + 1e-6 for a, b in zip(fits, fits[1:])):
            fail("the best objective worsens from generation to generation: %s" % fits, "elite")
        return Info(len(set(map(fitness, ran))) > 1, [case["init"]])
    return check


def alns(cpp):
    def check(case):
        ux, spec, want, ods = prep(case, cpp)
        from uxsim.DTAsolvers import SolverDSO_ALNS
        outs = []
        st = random.getstate()
        kw = {}
        if case["k_max"] is not None:
            kw["k_max"] = case["k_max"]
        if case["k_min"] is not None:
            kw["k_min"] = case["k_min"]
        if case["ops"]:
            kw["destroy_set"] = list(case["ops"])
        if case["repair"]:
            kw["repair_set"] = list(case["repair"])
        try:
            for rep in range(2):
                made = []
                random.seed(case["seed"] + 1)
                init = start_world(case, ux, spec, cpp)
                with warnings.catch_warnings():
                    warnings.simplefilter("ignore")
                    s = SolverDSO_ALNS(builder(ux, spec, cpp, made, False))
                random.seed(case["seed"])
                sol = quiet(s.solve, case["iters"], n_routes_per_od=case["k"], trials=case["trials"], always_accept=case["always"], print_progress=case["progress"], initial_solution_World=init, **kw)
                outs.append((s, sol, made, init))
        finally:
            random.setstate(st)
        (s, sol, made, init), (s2, _, _, _) = outs
        for k in ("ttts", "route_log", "cost_log", "xx_star", "best_obj"):
            x = diff(list(getattr(s, k)), list(getattr(s2, k)))
            if x:
                fail("the same seed gives another search: %s %s" % (k, x), "repeat")
        ran = [W for W in made if getattr(W, "T", 0) > 0]
        given = init is not None
        if init is None:
            init, ran = ran[0], ran[1:]
        if not len(ran) == len(s.ttts) == len(s.route_log) == len(s.cost_log) == len(s.dfs_link) or not 1 <= len(ran) <= case["iters"] + 1:
            fail("%d simulations, logs of %s for %d iterations" % (len(ran), [len(s.ttts), len(s.route_log), len(s.cost_log), len(s.dfs_link)], case["iters"]), "count")
        cand = candidates(sol, case, ods, case["k"])
        obj = []
        for i, W in enumerate(ran):
            if trips(W) != want:
                fail("the trips of the scenario changed", "trips")
            obj.append(fitness(W))
            if not whole(s.ttts[i], ttt(W)):
                fail("evaluation %d: total travel time %s logged, %s from its vehicles" % (i, s.ttts[i], ttt(W)), "ttt")
            logged(W, s.route_log[i], s.cost_log[i], "evaluation %d" % i)
            pr = prefs(W)
            for n, o, d, t in want:
                if pr[n] not in cand[o, d]:
                    fail("evaluation %d: vehicle %s prefers %s, which is no candidate" % (i, n, pr[n]), "domain")
        if given and case["init"] == "due":
            check_start(ran[0], init, cand, ods)
        m = min(obj)
        if sol is not s.W_sol or not any(sol is W for W in ran):
            fail("the solution is not a simulated world", "solution")
        if not close(fitness(sol), m, 1e-9):
            fail("the solution has objective %s, the best of %d evaluations %s" % (fitness(sol), len(obj), m), "solution")
        if not close(s.run.best_obj, m, 1e-9) or not close(s.best_obj_value, m, 1e-9):
            fail("reported best objectives %s and %s, the best evaluation is %s" % (s.run.best_obj, s.best_obj_value, m), "best")
        curve, b = [], math.inf
        for i, o in enumerate(obj):
            if o < b:
                b = o
                curve.append((i, o))
        if list(s.best_iter) != [i for i, o in curve] or diff([float(x) for x in s.best_obj], [float(o) for i, o in curve], 1e-9):
            fail("updates of the best: %s logged, the evaluations give %s" % (list(zip(s.best_iter, s.best_obj)), curve), "curve")
        pr = [cand[o, d][x] if 0 <= x < len(cand[o, d]) else None for (n, o, d, t), x in zip(want, s.xx_star)]
        # xx_star is the solution: simulate it
        R = scen.build(ux, spec, cpp=cpp)
        for (n, o, d, t), r in zip(want, pr):
            if r is None:
                fail("the solution vector %s is not in the domain" % (list(s.xx_star),), "domain")
            R.VEHICLES[n].set_links_prefer(list(r))
        quiet(scen.run_full, R)
        if not close(fitness(R), m, 1e-9):
            fail("the solution vector gives objective %s by itself, %s was reported" % (fitness(R), m), "vector")
        return Info(len(set(obj)) > 1, [case["init"]])
    return check


KINDS = ["tworoute", "tworoute", "grid", "ring", "cross", "random", "merge"]


def S(**kw):
    return scen.scenario_strategy(kinds=KINDS, unreachable=False, constraints=False, **kw)


def s_d2d():
    from hypothesis import strategies as st
    return st.fixed_dictionaries({
        "spec": S(min_steps=25, max_steps=110, min_platoons=3, max_platoons=30), "fin": st.sampled_from([False, False, False, True]), "p": st.sampled_from([0.05, 0.5, 1, 0, 0.3, 1]), "progress": st.booleans(),
        "sets": st.sampled_from([False, False, True]), "pick": st.lists(st.integers(0, 7), min_size=1, max_size=5), "k": st.sampled_from([10, 1, 2, 3, 5]), "num": st.sampled_from([None, None, 0, 1, 2, 5, 10 ** 6]),
        "iters": st.integers(1, 5), "seed": st.integers(0, 9999), "same": st.booleans()})


def s_ga():
    from hypothesis import strategies as st
    return st.fixed_dictionaries({
        "spec": S(min_steps=25, max_steps=90, min_platoons=5, max_platoons=20), "k": st.sampled_from([10, 1, 2, 3]), "gens": st.integers(1, 3), "pop": st.integers(3, 7), "elite": st.integers(0, 2), "mut": st.sampled_from([0.1, 0.5]),
        "points": st.integers(1, 2), "progress": st.booleans(), "init": st.sampled_from(["none", "plain", "due"]), "seed": st.integers(0, 9999)})


def s_alns():
    from hypothesis import strategies as st
    return st.fixed_dictionaries({
        "spec": S(min_steps=25, max_steps=90, min_platoons=5, max_platoons=20), "k": st.sampled_from([10, 1, 2, 3]), "iters": st.integers(2, 16), "trials": st.sampled_from([50, 1, 3, 0]), "always": st.booleans(),
        "k_max": st.sampled_from([None, 1, 3, 50]), "k_min": st.sampled_from([None, 1, 2]), "ops": st.lists(st.sampled_from(["random", "segment", "early_dep", "late_dep", "congest_link"]), max_size=3, unique=True),
        "repair": st.lists(st.sampled_from(["random", "min_cost"]), max_size=2, unique=True), "progress": st.booleans(), "init": st.sampled_from(["none", "plain", "due"]), "seed": st.integers(0, 9999)})


PARTS = [
    Part("due", s_d2d, d2d(False, "due"), 160, 4000),
    Part("due-cpp", s_d2d, d2d(True, "due"), 400, 10000, engine="cpp"),
    Part("dso", s_d2d, d2d(False, "dso"), 160, 4000),
    Part("dso-cpp", s_d2d, d2d(True, "dso"), 400, 10000, engine="cpp"),
    Part("ga", s_ga, ga(False), 60, 1500),
    Part("ga-cpp", s_ga, ga(True), 100, 3000, engine="cpp"),
    Part("alns", s_alns, alns(False), 60, 1500),
    Part("alns-cpp", s_alns, alns(True), 100, 3000, engine="cpp"),
]
