"""C29: user functions are called once per step with their object, see the state of that step, and act like changes between partial executions."""
from vlib.core import Part, Info, fail, Skip
from vlib import scen, ops
from vlib.digest import digest, diff

CPP = False
RULE = ("random scenarios with user functions on random subsets of world, nodes, links and vehicles, given when the object is made, assigned later, replaced or removed during the run, and run in one go or in pieces; "
        "the second part changes the world inside functions and compares with the same changes between partial executions; non-trivial: functions of at least two kinds ran while vehicles were on the road, or a change was made")
BUDGET = {"quick": 250, "thorough": 4000}
ASSUMPTIONS = ["Python engine only: the C++ engine documents no user functions", "a vehicle whose trip is ended by its node's transfer (not by its own update) in a step may or may not be called in that step"]


def view(o, kind):
    """What an object's function sees of it."""
    if kind == "L":
        return (len(o.cum_arrival), float(o.cum_arrival[-1]), float(o.cum_departure[-1]), o.u, tuple(v.name for v in o.vehicles), float(o.traveltime_instant[-1]), o.capacity_out_remain, o.capacity_in_remain)
    if kind == "N":
        return (o.signal_phase, o.signal_t, len(o.signal_log))
    if kind == "V":
        return (o.state, o.x, o.v, o.lane, o.link.name if o.link is not None else None, len(o.log_t))
    return tuple((v.state, v.x, v.link.name if v.link is not None else None) for v in o.VEHICLES.values()) + tuple(float(l.cum_departure[-1]) for l in o.LINKS)


def calls(case):
    from vlib import env
    ux = env.setup()
    spec = case["spec"]
    rec = []
    A = scen.build(ux, spec)
    scen.finalize(A)
    if A.TSIZE == 0:
        raise Skip("no step")
    scen.run_full(A)

    def hook(kind, tag):
        def f(*args, **kw):
            if len(args) != 1 or kw:
                fail("function of %s called with %d arguments" % (tag, len(args)), "arguments")
            o = args[0]
            w = o if kind == "W" else o.W
            rec.append((w.T, kind, tag, o, view(o, kind), w.TIME))
        return f
    given = lambda i: case["who"][i % len(case["who"])]
    sp = dict(spec, nodes=[dict(n) for n in spec["nodes"]], links=[dict(l) for l in spec["links"]], vehicles=[dict(v) for v in spec.get("vehicles", [])])
    objs = []
    for i, n in enumerate(sp["nodes"]):
        if given(i):
            n["user_function"] = hook("N", n["name"])
    for i, l in enumerate(sp["links"]):
        if given(i + 3):
            l["user_function"] = hook("L", l["name"])
    for i, v in enumerate(sp["vehicles"]):
        v["name"] = "own%d" % i
        if given(i + 5):
            v["user_function"] = hook("V", v["name"])
        data = ["u", i, {"k": [i]}]
        objs.append((v["name"], data))
        v["user_attribute"] = data
    # the same names without functions
    plain = dict(spec, vehicles=[dict(v, name="own%d" % i) for i, v in enumerate(spec.get("vehicles", []))])
    A = scen.build(ux, plain)
    scen.run_full(A)
    B = scen.build(ux, sp, **({"user_function": hook("W", "world")} if case["world"] else {}))
    late = {}
    for i, v in enumerate(list(B.VEHICLES.values())):
        if v.name not in [x[0] for x in objs] and given(i + 7):
            v.user_function = hook("V", v.name)     # vehicles of a demand get theirs afterwards
    scen.finalize(B)
    tr = []
    # in pieces, functions coming and going
    on = {("N", n.name): n.user_function is not None for n in B.NODES}
    on.update({("L", l.name): l.user_function is not None for l in B.LINKS})
    on.update({("V", v.name): v.user_function is not None for v in B.VEHICLES.values()})
    on[("W", "world")] = case["world"]
    active = {}      # step -> keys whose function must be called
    seen = {}
    ch = sorted(case["changes"], key=lambda c: c["T"])
    T, N = 0, B.TSIZE
    gone = {}
    for T in range(N):
        while ch and ch[0]["T"] <= T:
            c = ch.pop(0)
            k = sorted(on)[c["i"] % len(on)] if c["i"] >= 0 else ("W", "world")
            o = {"N": lambda: B.get_node(k[1]), "L": lambda: B.get_link(k[1]), "V": lambda: B.VEHICLES[k[1]], "W": lambda: B}[k[0]]()
            if c["on"]:
                o.user_function = hook(k[0], k[1])
            else:
                o.user_function = None
            on[k] = bool(c["on"])
        before = {n: v.state for n, v in B.VEHICLES.items()}
        must = {k for k in on if on[k] and not (k[0] == "V" and before[k[1]] in ("end", "abort"))}
        a = len(rec)
        B.exec_simulation(duration_t2=B.DELTAT * 1.0000001)
        if B.T != T + 1:
            fail("T=%d: one step ended at %s" % (T, B.T), "step")
        got = {}
        order = []
        for r in rec[a:]:
            if r[0] != T:
                fail("function of %s %s called at step %s, the step is %d" % (r[1], r[2], r[0], T), "when")
            got[r[1:3]] = got.get(r[1:3], 0) + 1
            order.append(r[1])
            o = {"N": lambda: B.get_node(r[2]), "L": lambda: B.get_link(r[2]), "V": lambda: B.VEHICLES[r[2]], "W": lambda: B}[r[1]]()
            if r[3] is not o:
                fail("T=%d: function of %s %s called with %r" % (T, r[1], r[2], r[3]), "object")
        for k in got:
            if got[k] != 1:
                fail("T=%d: function of %s %s called %d times" % (T, k[0], k[1], got[k]), "twice")
            if k not in must:
                fail("T=%d: function of %s %s called, though it %s" % (T, k[0], k[1], "has ended" if on[k] else "was removed"), "extra")
        for k in must:
            if k not in got:
                if k[0] == "V" and B.VEHICLES[k[1]].state in ("end", "abort"):
                    gone[k[1]] = T      # ended in this step before its own update
                    continue
                fail("T=%d: function of %s %s not called" % (T, k[0], k[1]), "missing")
        # what it saw is the state of that step
        for r in rec[a:]:
            t_, kind, tag, o, vw, time = r
            if kind == "W":
                if vw != view(B, "W"):
                    fail("T=%d: the world's function saw %s, the state after the step is %s" % (T, vw, view(B, "W")), "world state")
                if abs(time - T * B.DELTAT) > 1e-9:
                    fail("T=%d: the world's function saw TIME %s" % (T, time), "time")
            elif kind == "L":
                if vw[0] != T + 1 or vw[3] != o.u or vw[5] != float(o.traveltime_instant[T]):
                    fail("T=%d: the function of link %s saw %s" % (T, tag, vw), "link state")
                d = vw[1] - float(o.cum_arrival[T]), vw[2] - float(o.cum_departure[T])
                if d[0] > 0 or d[1] > 0 or (T > 0 and (vw[1] != float(o.cum_arrival[T - 1]) or vw[2] != float(o.cum_departure[T - 1]))):
                    fail("T=%d: the function of link %s saw counts %s, of the steps before and now %s, %s" % (T, tag, vw[1:3], list(o.cum_arrival)[max(0, T - 1):], list(o.cum_departure)[max(0, T - 1):]), "link state")
            elif kind == "N":
                if vw[0] != o.signal_phase or vw[1] != o.signal_t or vw[2] != len(o.signal_log):
                    fail("T=%d: the function of node %s saw the signal %s, after the step it is %s" % (T, tag, vw, view(o, "N")), "node state")
            else:
                now = view(o, "V")
                if vw != now and not (now[0] in ("end", "abort") and vw[0] == "run"):
                    fail("T=%d: the function of vehicle %s saw %s, after the step it is %s" % (T, tag, vw, now), "vehicle state")
        # the stated order: links, nodes, vehicles, world
        for x, y in zip(order, order[1:]):
            if "LNVW".index(x) > "LNVW".index(y):
                fail("T=%d: functions called in the order %s" % (T, order), "order")
    d = diff(digest(A, False), digest(B, False))
    if d:
        fail("without | with functions that do nothing: " + d, "differ")
    for n, data in objs:
        i = int(n[3:])
        if B.VEHICLES[n].user_attribute is not data or data != ["u", i, {"k": [i]}]:
            fail("user attribute of vehicle %s is %r" % (n, B.VEHICLES[n].user_attribute), "attribute")
    kinds = {r[1] for r in rec}
    return Info(len(kinds) >= 2 and any(v.state != "home" for v in B.VEHICLES.values()), sorted(kinds) + (["ended before own update"] if gone else []))


WHERE = {"world": ops.KINDS,
         "link": ["cap_in", "cap_out", "node_cap", "ffs", "jam", "signal", "signal2", "priority", "demand", "vehicle", "route", "prefer", "avoid"],
         "node": ["node_cap", "signal", "signal2", "priority", "demand", "vehicle", "route", "prefer", "avoid"],
         "vehicle": ["cap_in", "cap_out", "node_cap", "jam", "signal", "signal2", "priority", "ffs"]}


def first(W, op, where):
    """Link and node functions run before the other links and nodes are updated: leave out what concerns the first ones."""
    op = dict(op)
    if where == "link" and op["k"] in ("cap_in", "cap_out", "ffs", "jam", "priority"):
        if len(W.LINKS) < 2:
            return None
        op["i"] = 1 + op["i"] % (len(W.LINKS) - 1)
    if where == "vehicle" and op["k"] == "cap_in" and op["x"] == 0:
        op["x"] = 0.4       # a closed link is avoided by the route search of this very step
    if where == "node" and op["k"] in ("node_cap", "signal", "signal2", "demand", "vehicle"):
        c = [m for m in W.NODES if m.flow_capacity is not None] if op["k"] == "node_cap" else [m for m in W.NODES if len(m.signal) > 1] if op["k"][:3] == "sig" else [None, 1]
        j = [i for i, m in enumerate(c) if m is not W.NODES[0]]
        if not j:
            return None
        if op["k"] in ("node_cap", "signal", "signal2"):
            op["i"] = j[op["i"] % len(j)]
    return op


def changes(case):
    from vlib import env
    ux = env.setup()
    spec, where = case["spec"], case["where"]
    ev = {}
    for e in case["events"]:
        ev.setdefault(e["T"], []).append(dict(e["op"], k=WHERE[where][e["op"]["kk"] % len(WHERE[where])]))
    done = []
    B = scen.build(ux, spec)
    scen.finalize(B)
    N = B.TSIZE
    if N == 0 or (where == "vehicle" and not B.VEHICLES):
        raise Skip("no step")
    start = [0]

    def f(o):
        T = B.T
        for op in ev.get(T, []):
            op = first(B, op, where)
            if op and T + (where in ("world", "vehicle")) < N and ops.apply(B, op, False, start_min=T + 1 if where in ("world", "vehicle") else None):
                done.append((T, op))
    if where == "world":
        B.user_function = f
    elif where == "link":
        B.LINKS[0].user_function = f
    elif where == "node":
        B.NODES[0].user_function = f
    else:
        B.VEHICLES[sorted(B.VEHICLES)[case["veh"] % len(B.VEHICLES)]].user_function = f
    B.exec_simulation()
    A = scen.build(ux, spec)
    scen.finalize(A)
    by = {}
    for T, op in done:
        by.setdefault(T + (1 if where in ("world", "vehicle") else 0), []).append(op)
    for T in sorted(by):
        if T > A.T:
            A.exec_simulation(duration_t2=(T - A.T) * A.DELTAT * 1.0000001)
        for op in by[T]:
            if not ops.apply(A, op, False):
                fail("T=%d: %s was possible in the function of a %s and is not between partial executions" % (T, op, where), "possible")
    if A.T < N:
        A.exec_simulation()
    d = diff(digest(A, False), digest(B, False))
    if d:
        fail("changes %s between partial executions | in the function of a %s: %s" % (done[:6], where, d), "change")
    return Info(bool(done), [where] + sorted({op["k"] for T, op in done}))


def s_calls():
    from hypothesis import strategies as st
    return st.fixed_dictionaries({"spec": scen.scenario_strategy(zero_caps=True, wild_offset=True, max_steps=60, max_platoons=40), "who": st.lists(st.booleans(), min_size=2, max_size=9), "world": st.booleans(),
                                  "changes": st.lists(st.fixed_dictionaries({"T": st.integers(0, 50), "i": st.integers(-1, 60), "on": st.booleans()}), max_size=5)})


def s_changes():
    from hypothesis import strategies as st
    op = st.fixed_dictionaries({"kk": st.integers(0, 29), "i": st.integers(0, 11), "x": st.sampled_from([0.5, 0.2, 1.0, 0.8, 0.0, 1.7]), "n": st.integers(0, 7)})
    return st.fixed_dictionaries({"spec": scen.scenario_strategy(max_steps=60, max_platoons=40), "where": st.sampled_from(sorted(WHERE)), "veh": st.integers(0, 40),
                                  "events": st.lists(st.fixed_dictionaries({"T": st.sampled_from([0, 1, 2, 3, 5, 8, 13, 20, 30]), "op": op}), min_size=1, max_size=6)})


PARTS = [
    Part("calls", s_calls, calls, 700, 12000),
    Part("changes", s_changes, changes, 700, 15000),
]
