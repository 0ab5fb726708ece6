"""C15: save_scenario / load_scenario / CSV against the world the same calls build."""
import csv, os, shutil, tempfile, warnings
from vlib.core import Part, Info, fail, Skip
from vlib import scen, ops
from vlib.digest import digest, diff, norm
from checks import c06

CPP = True
RULE = ("random networks with every node and link parameter, tolls, attributes and all kinds of demand (interleaved, by name and by object), possibly changed before or during a run, saved and loaded whole, "
        "in parts and twice, and networks and demand through CSV files in both engines; non-trivial: at least three vehicles and a non-default parameter")
BUDGET = {"quick": 200, "thorough": 3000}
ASSUMPTIONS = ["the vehicles made by addVehicle are not part of a saved scenario (documented: adddemand and its variants)",
               "the phase a signal happens to be in and the filling of capacity budgets are not part of a scenario: after changes to them only the loaded worlds are compared with each other",
               "equality of the runs assumes that the loading world has the same options and seed, and that no name had to be made unique at random"]

NODE = ["name", "x", "y", "signal", "signal_offset", "flow_capacity", "number_of_lanes", "attribute", "user_attribute"]
LINK = ["name", "start_node", "end_node", "length", "u", "kappa", "w", "tau", "capacity", "delta", "delta_per_lane", "q_star", "k_star", "free_flow_speed", "number_of_lanes", "merge_priority", "signal_group",
        "capacity_in", "capacity_out", "edie_dx", "attribute", "user_attribute"]
CPPLINK = ["name", "start_node", "end_node", "length", "u", "kappa", "w", "capacity", "number_of_lanes", "merge_priority", "signal_group", "capacity_in", "capacity_out"]


def nettable(W, cpp=False):
    """Every parameter of the network."""
    out = {"nodes": [], "links": []}
    for n in W.NODES:
        d = {a: norm(getattr(n, a)) for a in NODE if hasattr(n, a)}
        d["in"], d["out"] = sorted(n.inlinks), sorted(n.outlinks)
        out["nodes"].append(d)
    for l in W.LINKS:
        d = {a: norm(getattr(l, a)) for a in (CPPLINK if cpp else LINK) if hasattr(l, a)}
        if not cpp:
            d["toll"] = [norm(l.congestion_pricing(t)) if l.congestion_pricing else 0.0 for t in (0, 7, 33.3, 100, 1000)]
        out["links"].append(d)
    return out


def dem(W):
    return [[v.orig.name, v.dest.name, norm(v.departure_time), norm(v.attribute)] for v in W.VEHICLES.values()]


def attr_of(a):
    """Attribute values of several types, from plain data."""
    if a is None:
        return None
    k = a["k"]
    if k == "array":
        import numpy as np
        return np.array([1.0, 2.0, a["v"]])
    if k == "frame":
        import pandas as pd
        return pd.DataFrame({"a": [1, a["v"]]})
    if k == "list":
        return [a["v"], "b"]
    if k == "dict":
        return {"v": a["v"]}
    return a["v"]


def plain(v):
    if hasattr(v, "tolist"):
        return ["array"] + v.tolist()
    if hasattr(v, "to_dict"):
        return ["frame"] + [[k, list(map(norm, x.values()))] for k, x in v.to_dict().items()]
    return norm(v)


def make_world(ux, case, cpp=False):
    spec = case["spec"]
    W = scen.new_world(ux, spec, cpp=cpp)
    scen.add_network(W, spec)
    for i, a in enumerate(case.get("attrs", [])):
        o = (W.NODES + W.LINKS)[a["i"] % (len(W.NODES) + len(W.LINKS))]
        setattr(o, a["f"], attr_of(a["v"]))
    return W


def add_all(W, case):
    nodes = case["spec"]["nodes"]
    outs, ins = {}, {}
    for l in case["spec"]["links"]:
        outs[l["start"]] = outs.get(l["start"], 0) + 1
        ins[l["end"]] = ins.get(l["end"], 0) + 1
    kinds = []
    for d in case["demands"]:
        if d["kind"] == "vehicle":
            continue
        od = c06.allowed(d, nodes, outs, ins)
        if od is None or (d["kind"] in ("pair", "point") and not outs.get(od[0][0])):
            continue
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            c06.call(W, d, nodes, d["by_object"], d.get("attr"))
        kinds.append(d["kind"])
    return kinds


def load(ux, spec, path, **kw):
    W = scen.new_world(ux, spec)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        W.load_scenario(path, **kw)
    return W


def check_py(case):
    from vlib import env
    ux = env.setup(cpp=False)
    spec = case["spec"]
    tmp = tempfile.mkdtemp(prefix="c15_")
    try:
        A = make_world(ux, case)
        kinds = add_all(A, case)
        changed = set()
        if case["when"] == "run":
            scen.finalize(A)
            ops.run_events(A, False, case["events"], upto=case["stop"])
            changed = {e["op"]["k"] for e in case["events"] if e["T"] < case["stop"]}
        else:
            for e in case["events"]:
                if ops.apply(A, e["op"], False, start_min=0):
                    changed.add(e["op"]["k"])
            if case["when"] == "finalized":
                scen.finalize(A)
        p = os.path.join(tmp, "s.pkl")
        A.save_scenario(p)
        n_before, v_before = nettable(A), dem(A)
        # loaded as a whole
        B = load(ux, spec, p)
        d = diff(cmp_net(A, case), cmp_net(B, case))
        if d:
            fail("loaded network differs: %s" % d, "net")
        d = diff(v_before, dem(B))
        if d:
            fail("loaded demand differs (saved | loaded): %s" % d, "demand")
        # saved by parts
        pn, pd = os.path.join(tmp, "n.pkl"), os.path.join(tmp, "d.pkl")
        A.save_scenario(pn, demand=False)
        A.save_scenario(pd, network=False)
        C = load(ux, spec, pn, demand=False) if case["order"] else load(ux, spec, p, demand=False)
        if C.VEHICLES:
            fail("loading the network only gave %d vehicles" % len(C.VEHICLES), "netonly")
        d = diff(cmp_net(A, case), cmp_net(C, case))
        if d:
            fail("network loaded alone differs: %s" % d, "netonly")
        C.load_scenario(pd if case["order"] else p, network=False)
        d = diff(v_before, dem(C))
        if d:
            fail("demand loaded alone differs (saved | loaded): %s" % d, "demonly")
        if case["order"]:
            E = load(ux, spec, pn)
            if E.VEHICLES:
                fail("a file of the network only gave %d vehicles" % len(E.VEHICLES), "netonly")
            d = diff(cmp_net(A, case), cmp_net(E, case))
            if d:
                fail("a file of the network only: %s" % d, "netonly")
        # a second generation
        p2 = os.path.join(tmp, "t.pkl")
        B.save_scenario(p2)
        D = load(ux, spec, p2)
        d = diff(cmp_net(B, case), cmp_net(D, case)) or diff(v_before, dem(D))
        if d:
            fail("second generation differs: %s" % d, "twice")
        # saving leaves the world alone
        d = diff(n_before, nettable(A)) or diff(v_before, dem(A))
        if d:
            fail("saving changed the world: %s" % d, "saving")
        # all of them run alike
        if changed & {"signal", "signal2", "cap_in", "cap_out", "node_cap"} or (case["when"] == "run" and changed):
            ref = None      # the phase of a signal and the filling of a budget are not part of the scenario
        elif case["when"] != "run":
            ref = A
        else:
            ref = make_world(ux, case)
            add_all(ref, case)
        runs = [scen.run_full(w) for w in ([ref] if ref else []) + [B, C, D]]
        g0 = digest(runs[0], False)
        for i, w in enumerate(runs[1:]):
            d = diff(g0, digest(w, False))
            if d:
                fail("run of world %d of %s (original first): %s" % (i + 1, "original, whole, parts, twice" if ref else "whole, parts, twice", d), "run")
        moved = sum(v.state in ("run", "end") for v in runs[0].VEHICLES.values())
        return Info(moved >= 3 and len(kinds) >= 2, sorted(set(kinds) | {"saved " + case["when"]} | {"changed " + c for c in changed}))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def cmp_net(W, case):
    t = nettable(W)
    for o, d in zip(W.NODES + W.LINKS, t["nodes"] + t["links"]):
        for a in ("attribute", "user_attribute"):
            d[a] = plain(getattr(o, a))
        if any(e["op"]["k"] == "ffs" for e in case["events"]):
            d.pop("edie_dx", None)      # the default cell size of the reports is made with the link
    return t


def make_csv(cpp):
    def check(case):
        from vlib import env
        ux = env.setup(cpp=cpp)
        spec = case["spec"]
        tmp = tempfile.mkdtemp(prefix="c15_")
        try:
            A = scen.new_world(ux, spec, cpp=cpp)
            for n in spec["nodes"]:
                A.addNode(n["name"], n["x"], n["y"])
            for l in spec["links"]:
                A.addLink(l["name"], l["start"], l["end"], length=l["length"], free_flow_speed=l["free_flow_speed"], jam_density=l.get("jam_density", 0.2), merge_priority=l.get("merge_priority", 1))
            dm = []
            for d in spec["demands"]:
                r = [d["orig"], d["dest"], d["t_start"], d["t_end"], d.get("flow", -1)]
                if "volume" in d:
                    r.append(d["volume"])
                    A.adddemand(d["orig"], d["dest"], d["t_start"], d["t_end"], volume=d["volume"])
                else:
                    A.adddemand(d["orig"], d["dest"], d["t_start"], d["t_end"], flow=d["flow"])
                dm.append(r)
            f = [os.path.join(tmp, x) for x in ("n.csv", "l.csv", "d.csv")]
            rows = [[["name", "x", "y"]] + [[n["name"], n["x"], n["y"]] for n in spec["nodes"]],
                    [["name", "start", "end", "length", "u", "kappa", "merge_priority"]] + [[l["name"], l["start"], l["end"], l["length"], l["free_flow_speed"], l.get("jam_density", 0.2), l.get("merge_priority", 1)] for l in spec["links"]],
                    [["orig", "dest", "start_t", "end_t", "q"] + (["volume"] if any(len(r) > 5 for r in dm) else [])] + dm]
            for path, rs in zip(f, rows):
                with open(path, "w", newline="") as h:
                    csv.writer(h).writerows(rs if case["header"] else rs[1:])
            B = scen.new_world(ux, spec, cpp=cpp, **({"tmax": None} if case["tmax"] else {}))
            if case["whole"]:
                B.load_scenario_from_csv(*f, **({"tmax": spec["W"]["tmax"]} if case["tmax"] else {}))
            else:
                B.generate_Nodes_from_csv(f[0])
                B.generate_Links_from_csv(f[1])
                B.generate_demand_from_csv(f[2])
                if case["tmax"]:
                    B.TMAX = spec["W"]["tmax"]
            d = diff(nettable(A, cpp), nettable(B, cpp)) or diff(dem(A), dem(B))
            if d:
                fail("from calls | from CSV: %s" % d, "csv")
            scen.run_full(A)
            scen.run_full(B)
            d = diff(digest(A, cpp), digest(B, cpp))
            if d:
                fail("run, from calls | from CSV: %s" % d, "csvrun")
            return Info(len(A.VEHICLES) >= 3 and len(dm) >= 2, (["header"] if case["header"] else []) + (["volume"] if any(len(r) > 5 for r in dm) else []))
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
    return check


def strategy():
    from hypothesis import strategies as st
    val = st.fixed_dictionaries({"k": st.sampled_from(["plain", "list", "dict", "array", "frame"]), "v": st.sampled_from([1, 2.5, 0])})
    at = st.fixed_dictionaries({"i": st.integers(0, 30), "f": st.sampled_from(["attribute", "user_attribute"]), "v": val})

    @st.composite
    def gen(draw):
        spec = draw(scen.scenario_strategy(max_platoons=1, vehicles=False, kinds=["grid", "ring", "random", "cross", "merge", "corridor", "tworoute"], max_steps=50, wild_offset=True))
        spec["demands"] = []
        dt = spec["W"]["deltan"] * spec["W"]["reaction_time"]
        for l in spec["links"]:
            if draw(st.integers(0, 5)) == 0:
                l["eular_dx"] = round(l["length"] / draw(st.sampled_from([1, 2, 3.5])), 2)
            if draw(st.integers(0, 4)) == 0:
                l["attribute"] = draw(st.sampled_from(["a", 3, 0, False]))
        for n in spec["nodes"]:
            if draw(st.integers(0, 4)) == 0:
                n["attribute"] = draw(st.sampled_from(["a", 3, 0, False]))
            if draw(st.integers(0, 4)) == 0:
                n["user_attribute"] = draw(st.sampled_from(["a", 3, 0, False]))
        n = spec["W"]["tmax"] / dt
        events = draw(ops.s_timed(int(n), ["cap_in", "cap_out", "node_cap", "ffs", "jam", "signal", "signal2", "priority", "toll", "demand"], max_size=4))
        return {"spec": spec, "demands": draw(st.lists(c06.demand_strategy(dt, spec["W"]["deltan"], spec["W"]["tmax"]), min_size=1, max_size=6)),
                "attrs": draw(st.lists(at, max_size=2)), "events": events if draw(st.booleans()) else [], "when": draw(st.sampled_from(["new", "finalized", "run"])),
                "stop": draw(st.integers(1, int(n) + 1)), "order": draw(st.booleans())}
    return gen()


def strategy_csv():
    from hypothesis import strategies as st
    return st.fixed_dictionaries({"spec": scen.scenario_strategy(vehicles=False, signals=False, caps=False, nodecaps=False, multilane=False, tolls=False, max_platoons=30, max_steps=50),
                                  "header": st.booleans(), "whole": st.booleans(), "tmax": st.booleans()})


PARTS = [
    Part("scenario", strategy, check_py, 2000, 30000),
    Part("csv python", strategy_csv, make_csv(False), 300, 4000),
    Part("csv cpp", strategy_csv, make_csv(True), 300, 4000, engine="cpp"),
]
