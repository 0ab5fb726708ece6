"""C27: the adaptive large neighbourhood search against the recorded sequence of its evaluations."""
import math, random, copy
from vlib.core import Part, Info, fail, close

CPP = False
RULE = ("random separable-plus-interaction objectives (with plateaus, ties, minimised or maximised) over random domains (one to seven values per position, numbers or strings), start points, operator sets, sizes, temperatures, "
        "budgets and seeds; every evaluation is recorded; non-trivial: the search improved on its start and refused or accepted a worsening")
BUDGET = {"quick": 200, "thorough": 3000}
ASSUMPTIONS = ["the starting point lies in the declared domain", "operators that need departure times or a simulated world are used only with that information (the world's are exercised through the solver in C24)"]


def objective(case, n, domains, log=None):
    w = case["w"]
    q = case["plateau"]
    pos = [{v: j for j, v in enumerate(d)} for d in domains]

    def f(x):
        x = list(x)
        if log is not None:
            log.append(x)
        if len(x) != n:
            fail("evaluated a solution of length %d instead of %d" % (len(x), n), "length")
        s = 0.0
        prev = 0
        for i, v in enumerate(x):
            if v not in pos[i]:
                fail("evaluated %r at position %d, its domain is %r" % (v, i, domains[i]), "domain")
            j = pos[i][v]
            s += w[(i * 7 + j * 3) % len(w)] + 0.5 * w[(i + j * prev) % len(w)]
            prev = j
        s = case["scale"] * s + case["shift"]
        return math.floor(s / q) * q if q else s
    return f


def start(case):
    n = case["n"]
    vals = case["values"]
    if case["kind"] == "str":
        vals = ["r%d" % v for v in vals]
    elif case["kind"] == "float":
        vals = [v / 4 for v in vals]
    if case["domains"]:
        domains = [[vals[(i + j) % len(vals)] for j in range(case["domains"][i % len(case["domains"])])] for i in range(n)]
        domains = [[v for j, v in enumerate(d) if v not in d[:j]] for d in domains]
        x0 = [d[case["x0"][i % len(case["x0"])] % len(d)] for i, d in enumerate(domains)]
        return x0, domains, domains
    x0 = [vals[case["x0"][i % len(case["x0"])] % len(vals)] for i in range(n)]
    inferred = sorted(set(x0), key=str)
    return x0, None, [inferred[:] for _ in range(n)]


def go(case, A, log, pieces, perturb=None):
    x0, given, domains = start(case)
    n = len(x0)
    f = objective(case, n, domains, log)
    kw = dict(k_max=case["k_max"], total_iters=case["iters"], trials=case["trials"], p0=case["p0"], always_accept=case["always"], seed=case["seed"], sense=case["sense"], segment_len=case["segment"],
              repair_set=["random"], destroy_set=list(case["ops"]))
    if case["k_min"] is not None:
        kw["k_min"] = case["k_min"]
    if case["T0"] is not None:
        kw["T0"] = case["T0"]
    import numpy as np
    info = None
    if {"early_dep", "late_dep"} & set(case["ops"]):
        info = {"departure_times": np.array([case["dep"][i % len(case["dep"])] for i in range(n)], dtype=float)}
        kw["additional_info"] = info
    xin = tuple(x0) if case["kind"] == "tuple" else (np.array(x0) if case["np"] and case["kind"] == "int" else x0)
    snap = copy.deepcopy((xin, given, info))
    if perturb is not None:
        random.seed(perturb)
        np.random.seed(perturb)
    import warnings
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        state = A.init_alns(xin, f, domains=given, **kw)
        n_init = len(log)
        for p in pieces:
            got = A.run_auto(state, n=p)
            if len(got) != p:
                fail("run_auto(n=%d) returned %d steps" % (p, len(got)), "steps")
    xs, run = A.finalize(state, stop_reason="done")
    for a, b, what in zip((xin, given, info), snap, ("starting point", "domains", "information")):
        same = (str(a) == str(b)) if what != "starting point" else (list(a) == list(b) and type(a) is type(b))
        if not same:
            fail("the caller's %s was changed from %s to %s" % (what, b, a), "modified")
    return state, xs, run, n_init, x0, domains, f


def search(case):
    from vlib import env
    env.setup()
    from uxsim.DTAsolvers import ALNS as A
    rs = random.getstate()
    try:
        log = []
        total = sum(case["pieces"])
        state, xs, run, n_init, x0, domains, f = go(case, A, log, case["pieces"])
        sgn = 1 if case["sense"] == "min" else -1
        val = objective(case, len(x0), domains)
        vals = [val(x) for x in log]
        if log[0] != list(x0):
            fail("the first evaluation is %s, the starting point is %s" % (log[0], x0), "start")
        if len(run.steps) != total or len(log) != n_init + total:
            fail("%d steps logged and %d evaluations after the initial %d, %d steps were asked for" % (len(run.steps), len(log) - n_init, n_init, total), "count")
        if case["T0"] is not None and n_init != 1:
            fail("%d initial evaluations although the temperature is given" % n_init, "count")
        xs = list(xs)
        best = min(vals, key=lambda v: sgn * v)
        if list(run.best_x) != xs or list(A.get_best_x(state)) != xs:
            fail("finalize() returns %s, best_x is %s, get_best_x() %s" % (xs, run.best_x, A.get_best_x(state)), "best_x")
        if val(xs) != run.best_obj:
            fail("reported best objective %s, its solution has %s" % (run.best_obj, val(xs)), "best_obj")
        if run.best_obj != best:
            fail("reported best objective %s, the best of %d evaluations is %s" % (run.best_obj, len(vals), best), "best")
        cur_x, cur = list(x0), vals[0]
        b = min(vals[:n_init], key=lambda v: sgn * v)
        worse = refused = improves = 0
        lastT = None
        for k, (s, x, v) in enumerate(zip(run.steps, log[n_init:], vals[n_init:])):
            if s.iter != k + 1:
                fail("step %d is logged as iteration %s" % (k + 1, s.iter), "iter")
            if not close(s.delta_obj, sgn * (v - cur)):
                fail("step %d: change %s logged, the evaluated solution changes it by %s" % (k + 1, s.delta_obj, sgn * (v - cur)), "delta")
            diff = [i for i in range(len(x)) if x[i] != cur_x[i]]
            ch = list(s.changed_idx)
            if not set(diff) <= set(ch) or len(ch) != s.changed_idxs or len(set(ch)) != len(ch) or any(not 0 <= i < len(x) for i in ch):
                fail("step %d: positions %s logged as changed (%s), %s changed" % (k + 1, ch, s.changed_idxs, diff), "changed")
            if case["k_min"] is not None and len(ch) > max(case["k_max"], case["k_min"], 1):
                fail("step %d: %d positions changed, at most %d allowed" % (k + 1, len(ch), case["k_max"]), "size")
            must = sgn * (v - cur) <= 0 or case["always"]
            if must and not s.accepted and ch:
                fail("step %d: a change by %s was refused" % (k + 1, s.delta_obj), "refused")
            if s.accepted:
                worse += sgn * (v - cur) > 0
                cur_x, cur = x, v
            else:
                refused += 1
            if s.obj_val != cur:
                fail("step %d: current objective %s logged, it is %s" % (k + 1, s.obj_val, cur), "current")
            nb = min(b, v, key=lambda y: sgn * y)
            improves += sgn * (nb - b) < 0
            b = nb
            if s.best_obj != b:
                fail("step %d: best objective %s logged, the best evaluation so far is %s" % (k + 1, s.best_obj, b), "curve")
            if not s.temperature > 0:
                fail("step %d: temperature %s" % (k + 1, s.temperature), "temperature")
            if lastT is not None and s.temperature > lastT * (1 + 1e-9) and state.T0 >= state.Tend:
                fail("step %d: temperature rises from %s to %s" % (k + 1, lastT, s.temperature), "temperature")
            lastT = s.temperature
        if list(A.get_current_x(state)) != cur_x:
            fail("current solution %s, the last accepted is %s" % (A.get_current_x(state), cur_x), "current")
        for kind in ("destroy", "repair"):
            if sum(v["best_improves"] for v in run.operator_stats[kind].values()) != improves:
                fail("the %s operators improved the best %s times, the evaluations did %d times" % (kind, {k: v["best_improves"] for k, v in run.operator_stats[kind].items()}, improves), "stats")
        # the same search again, in one piece, whatever others do with the global generators
        if case["seed"] is not None:
            log2 = []
            _, xs2, run2, _, _, _, _ = go(case, A, log2, [total], perturb=case["seed"] + 17)
            if log2 != log:
                k = next((i for i, (a, c) in enumerate(zip(log, log2)) if a != c), min(len(log), len(log2)))
                fail("the same seed gives another search from evaluation %d on" % k, "seed")
            if list(xs2) != xs or run2.best_obj != run.best_obj:
                fail("the same seed gives another result", "seed")
    finally:
        random.setstate(rs)
    return Info(sgn * (best - vals[0]) < 0 and (worse or refused), ["T0" if case["T0"] is not None else "trials"] + list(case["ops"]))


def s_search():
    from hypothesis import strategies as st
    return st.fixed_dictionaries({
        "n": st.integers(1, 14), "values": st.lists(st.integers(-5, 30), min_size=2, max_size=7, unique=True), "kind": st.sampled_from(["int", "str", "float", "tuple"]), "np": st.booleans(),
        "domains": st.one_of(st.none(), st.lists(st.integers(1, 7), min_size=1, max_size=5)), "x0": st.lists(st.integers(0, 6), min_size=1, max_size=7),
        "w": st.lists(st.floats(-10, 10, width=32).map(lambda v: round(v, 3)), min_size=4, max_size=12), "plateau": st.sampled_from([0, 0, 1, 5]), "scale": st.sampled_from([1, 100, 0.01, 0]), "shift": st.sampled_from([0, 0, 1000, -50]),
        "sense": st.sampled_from(["min", "max"]), "k_max": st.integers(1, 20), "k_min": st.one_of(st.none(), st.integers(1, 16)), "iters": st.integers(1, 200), "pieces": st.lists(st.integers(0, 60), min_size=1, max_size=4),
        "trials": st.sampled_from([0, 1, 5, 20, 50]), "p0": st.sampled_from([0.2, 0.01, 0.9]), "T0": st.one_of(st.none(), st.sampled_from([0.001, 1, 50, 1e-4])), "always": st.sampled_from([False, False, False, True]),
        "seed": st.one_of(st.integers(0, 9999), st.none()), "segment": st.sampled_from([50, 1, 7]),
        "ops": st.lists(st.sampled_from(["random", "segment", "early_dep", "late_dep"]), min_size=1, max_size=4, unique=True), "dep": st.lists(st.sampled_from([0, 0.25, 0.5, 1, 0.9]), min_size=1, max_size=5)})


PARTS = [Part("search", s_search, search, 2500, 60000)]
