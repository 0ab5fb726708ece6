"""C04: signal plans against a reference automaton, red lights against recorded crossings, un-signalised nodes against a metamorphic twin."""
from vlib.core import Part, Info, fail
from vlib import scen, trace

CPP = True
RULE = ("random networks with 1-4 phase signals (durations and offsets in quarters of a step, offsets beyond and below the cycle, plans replaced "
        "during the run, also with new groups and reset), both engines; every node and step; non-trivial: a signalised node showed at least two "
        "phases and at least one vehicle crossed such a node")
BUDGET = {"quick": 200, "thorough": 3000}


class Plan:
    """Reference signal: a phase is left at the first step at which more than its duration has elapsed."""
    def __init__(s, durations, offset, dt):
        s.d, s.dt = [float(x) for x in durations], dt
        s.phase, s.t = 0, 0.0
        if len(s.d) > 1:
            c = sum(s.d)
            pos = (-offset) % c
            while pos >= s.d[s.phase]:
                pos -= s.d[s.phase]
                s.phase += 1
            s.t = pos

    def step(s):
        if len(s.d) > 1:
            if s.t > s.d[s.phase]:
                s.phase = (s.phase + 1) % len(s.d)
                s.t = 0.0
            s.t += s.dt
        return s.phase


def make(cpp):
    def check(case):
        from vlib import env
        ux = env.setup(cpp=cpp)
        spec = case["spec"]
        W = scen.build(ux, spec, cpp=cpp)
        scen.finalize(W)
        dt = W.DELTAT
        plans, expect, groups_at = {}, {n["name"]: [] for n in spec["nodes"]}, []
        for n in spec["nodes"]:
            plans[n["name"]] = Plan(n.get("signal", [0]), n.get("signal_offset", 0), dt)
        groups = {l["name"]: list(l.get("signal_group", [0])) for l in spec["links"]}
        ev = {}
        for c in case["changes"]:
            ev.setdefault(c["T"], []).append(c)
        did = [0]

        def on_step(W, T):
            for c in ev.get(T, []):
                sig = [n["name"] for n in spec["nodes"] if len(n.get("signal", [0])) > 1]
                if not sig:
                    continue
                nm = sig[c["node"] % len(sig)]
                p = plans[nm]
                new = [dt * q / 4 for q in c["signal"]]
                reset = c["reset"] or p.phase >= len(new)
                nd = W.get_node(nm)
                kw = {}
                ins = [l["name"] for l in spec["links"] if l["end"] == nm]
                if c["groups"] is not None:
                    gl = [[] for _ in new]
                    for k, l in enumerate(ins):
                        for ph in c["groups"][k % len(c["groups"])]:
                            gl[ph % len(new)].append(l)
                    gl = [list(dict.fromkeys(x)) for x in gl]
                    kw["groups"] = gl
                    for l in ins:
                        g = [i for i, x in enumerate(gl) if l in x]
                        if g:
                            groups[l] = g
                if c["offset"] is not None:
                    kw["signal_offset"] = dt * c["offset"] / 4
                nd.override_signal(new, reset=reset, **kw)
                p.d = [float(x) for x in new]
                if reset:
                    p.phase, p.t = 0, 0.0
                did[0] += 1
                for l in ins:
                    have = W.get_link(l)._cpp_link.signal_group if cpp else W.get_link(l).signal_group
                    if sorted(have) != sorted(groups[l]) or sorted(W.get_link(l).signal_group) != sorted(groups[l]):
                        fail("T=%d: after override_signal(%s, groups=%s) link %s is green in phases %s instead of %s" % (T, new, kw.get("groups"), l, list(have), groups[l]), "groups")
            for nm, p in plans.items():
                expect[nm].append(p.step())
            groups_at.append({l: list(g) for l, g in groups.items()})
        tr = scen.run_traced(W, cpp, on_step)
        for s in tr:
            for nm, (ph, q, _) in s.nodes.items():
                if ph != expect[nm][s.T]:
                    fail("T=%d node %s shows phase %s, its plan prescribes %s (around: %s)" % (s.T, nm, ph, expect[nm][s.T], expect[nm][max(0, s.T - 5):s.T + 1]))
        for n in W.NODES:
            log = list(n.signal_log)
            if log != expect[n.name]:
                k = next((i for i, (a, b) in enumerate(zip(log, expect[n.name])) if a != b), min(len(log), len(expect[n.name])))
                fail("node %s: signal log has %d entries and differs from the phases shown (%d steps) at step %d" % (n.name, len(log), len(expect[n.name]), k))
        crossed = 0
        ends = {l["name"]: l["end"] for l in spec["links"]}
        for vs in trace.visits(W, tr).values():
            for x in vs:
                if x.exit == "transfer":
                    nm = ends[x.link]
                    if len(plans[nm].d) > 1:
                        crossed += 1
                        if expect[nm][x.tout] not in groups_at[x.tout][x.link]:
                            fail("T=%d: vehicle %s crossed node %s from link %s (green in phases %s) during phase %s" % (
                                x.tout, x.veh, nm, x.link, groups_at[x.tout][x.link], expect[nm][x.tout]))
        multi = any(len(set(e)) > 1 for e in expect.values())
        tags = []
        if did[0]: tags.append("plan replaced")
        if crossed: tags.append("crossings")
        if any(n.get("signal_offset", 0) > sum(n.get("signal", [0])) for n in spec["nodes"]): tags.append("offset beyond cycle")
        if any(n.get("signal_offset", 0) < 0 for n in spec["nodes"]): tags.append("negative offset")
        return Info(multi and crossed, tags)
    return check


def signal_strategy():
    from hypothesis import strategies as st

    @st.composite
    def gen(draw):
        spec = draw(scen.scenario_strategy(min_platoons=6, signals=False, min_steps=25, max_steps=90))
        dt = spec["W"]["deltan"] * spec["W"]["reaction_time"]
        indeg = {}
        for l in spec["links"]:
            indeg.setdefault(l["end"], []).append(l)
        for n in spec["nodes"]:
            if n["name"] in indeg and draw(st.integers(0, 2)) > 0:
                k = draw(st.integers(1, 4))
                n["signal"] = [dt * q / 4 for q in draw(st.lists(st.integers(1, 40), min_size=k, max_size=k))]
                cyc = sum(n["signal"])
                n["signal_offset"] = draw(st.one_of(st.just(0), st.integers(0, 200).map(lambda q: dt * q / 4), st.integers(-60, 0).map(lambda q: dt * q / 4)))
                for l in indeg[n["name"]]:
                    l["signal_group"] = draw(st.lists(st.integers(0, max(1, k - 1)), min_size=1, max_size=k, unique=True))
        changes = draw(st.one_of(st.just([]), st.lists(st.fixed_dictionaries({
            "T": st.integers(0, 60), "node": st.integers(0, 9), "signal": st.lists(st.integers(1, 30), min_size=2, max_size=4), "reset": st.booleans(),
            "offset": st.one_of(st.none(), st.integers(0, 60)),
            "groups": st.one_of(st.none(), st.lists(st.lists(st.integers(0, 3), min_size=0, max_size=2), min_size=1, max_size=4))}), min_size=1, max_size=3)))
        return {"spec": spec, "changes": changes}
    return gen()


def make_nosignal(cpp):
    """Signal groups are meaningless where the node has no signal (or one phase): the histories are equal."""
    def check(case):
        from vlib import env
        ux = env.setup(cpp=cpp)
        import copy
        a = case["spec"]
        b = copy.deepcopy(a)
        for l, g in zip(b["links"], case["groups"]):
            l["signal_group"] = g
        for n, d in zip(b["nodes"], case["single"]):
            if d:
                n["signal"] = [d]
        ta = scen.run_traced(scen.build(ux, a, cpp=cpp), cpp)
        tb = scen.run_traced(scen.build(ux, b, cpp=cpp), cpp)
        for x, y in zip(ta, tb):
            if x.vehs != y.vehs:
                n = next(n for n in x.vehs if x.vehs[n] != y.vehs.get(n))
                fail("T=%d: signal groups without a signal changed vehicle %s: %s became %s" % (x.T, n, x.vehs[n], y.vehs.get(n)))
        moved = sum(1 for s in ta for v in s.vehs.values() if v[0] == "run")
        return Info(moved > 10)
    return check


def nosignal_strategy():
    from hypothesis import strategies as st
    return st.fixed_dictionaries({
        "spec": scen.scenario_strategy(min_platoons=3, signals=False, max_steps=50),
        "groups": st.lists(st.lists(st.integers(0, 4), min_size=0, max_size=3), min_size=16, max_size=30),
        "single": st.lists(st.sampled_from([0, 0, 5, 30, 100]), min_size=9, max_size=9)})


PARTS = [
    Part("python", signal_strategy, make(False), 2000, 40000),
    Part("cpp", signal_strategy, make(True), 2000, 40000, engine="cpp"),
    Part("no-signal-python", nosignal_strategy, make_nosignal(False), 400, 8000),
    Part("no-signal-cpp", nosignal_strategy, make_nosignal(True), 400, 8000, engine="cpp"),
]
