"""C20: construction, naming, derived parameters and lookups, against a plain model of what was added."""
import os, sys, math
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
from vlib.core import Part, Info, fail, Skip, close
from vlib import scen

CPP = True
RULE = ("sequences of addNode/addLink/addVehicle/adddemand calls, valid or not (duplicate and automatic names, unknown, foreign and missing nodes and links, fractional lanes, every optional parameter), on both engines, checked after every call "
        "against a list of what was added; then lookups by name, object, coordinates and area, routes, and parameter changes; scenarios rebuilt in another order with refused calls in between must run alike; links closed by a zero speed; non-trivial: at least one call was refused and at least one link was built (or the vehicle was held on the closed link)")
BUDGET = {"quick": 120, "thorough": 3000}
ASSUMPTIONS = ["a free-flow speed or jam density of zero is only required to be refused or accepted as a whole, not to give particular derived values", "signals whose phases are all zero seconds long are outside the domain"]

NAMES = ["a", "b", "c", "d", "A", "a_renamed", "0", "1", "あ"]
LN = ["ab", "bc", "a", "0", "a-b", "b-c", "x y"]
VN = ["v", "w", "0", "1", "2", "7"]


def formulas(lp, cfg):
    u, lanes = lp.get("free_flow_speed", 20), int(lp.get("number_of_lanes", 1))
    kap = lp.get("jam_density", 0.2)
    if lp.get("jam_density_per_lane") is not None:
        kap = lp["jam_density_per_lane"] * lanes
    return derive(u, kap, lanes, cfg["reaction_time"])


def derive(u, kap, lanes, rt):
    tau = rt / lanes
    w = 1 / (tau * kap)
    cap = 1 / (1 / (u * kap) + tau) if u > 0 else 0.0     # the apex of the triangle: q = u k = (1 - tau q)... k_jam
    return {"u": u, "kappa": kap, "tau": tau, "w": w, "capacity": cap, "delta": 1 / kap, "delta_per_lane": lanes / kap, "q_star": cap, "k_star": cap / u if u > 0 else 0.0}


class Model:
    def __init__(s):
        s.nodes, s.links, s.vehs = [], [], []       # dicts: name, obj, params

    def state(s):
        return ([n["name"] for n in s.nodes], [l["name"] for l in s.links], [v["name"] for v in s.vehs])


def verify(W, M, cpp, where):
    def eq(what, a, b):
        if a != b:
            fail("%s: %s is %s, expected %s" % (where, what, a, b), "registry")
    eq("NODES", [n.name for n in W.NODES], [n["name"] for n in M.nodes])
    eq("LINKS", [l.name for l in W.LINKS], [l["name"] for l in M.links])
    eq("VEHICLES", list(W.VEHICLES), [v["name"] for v in M.vehs])
    eq("VEHICLES_LIVING", sorted(W.VEHICLES_LIVING), sorted(v["name"] for v in M.vehs))
    eq("NODES_NAME_DICT", sorted(W.NODES_NAME_DICT), sorted(n["name"] for n in M.nodes))
    eq("LINKS_NAME_DICT", sorted(W.LINKS_NAME_DICT), sorted(l["name"] for l in M.links))
    for i, n in enumerate(M.nodes):
        o = W.NODES[i]
        if o is not n["obj"] or o.id != i or W.NODES_NAME_DICT[o.name] is not o:
            fail("%s: node %s is registered under a wrong id or as another object" % (where, o.name), "registry")
        eq("inlinks of %s" % o.name, {k: v.name for k, v in o.inlinks.items()}, {l["name"]: l["name"] for l in M.links if l["end"] == n["name"]})
        eq("outlinks of %s" % o.name, {k: v.name for k, v in o.outlinks.items()}, {l["name"]: l["name"] for l in M.links if l["start"] == n["name"]})
    for i, l in enumerate(M.links):
        o = W.LINKS[i]
        if o is not l["obj"] or o.id != i or W.LINKS_NAME_DICT[o.name] is not o:
            fail("%s: link %s is registered under a wrong id or as another object" % (where, o.name), "registry")
        eq("ends of %s" % o.name, (o.start_node.name, o.end_node.name), (l["start"], l["end"]))
        if W.NODES_NAME_DICT[l["start"]].outlinks[o.name] is not o or W.NODES_NAME_DICT[l["end"]].inlinks[o.name] is not o:
            fail("%s: link %s is not the object its nodes know" % (where, o.name), "registry")
    for i, (k, v) in enumerate(W.VEHICLES.items()):
        m = M.vehs[i]
        if v is not m["obj"] or v.name != k or v.id != i:
            fail("%s: vehicle %s is registered with id %s as %s" % (where, k, v.id, v.name), "registry")
        eq("trip of %s" % k, (v.orig.name, v.dest.name), (m["o"], m["d"]))


def node_params(o, p, cfg, cpp):
    def eq(what, a, b):
        if isinstance(b, float) and a is not None:
            if not close(a, b):
                fail("node %s: %s is %s, expected %s (%s)" % (o.name, what, a, b, p), "node")
        elif a != b:
            fail("node %s: %s is %s, expected %s (%s)" % (o.name, what, a, b, p), "node")
    eq("x", o.x, p["x"])
    eq("y", o.y, p["y"])
    eq("signal", [float(x) for x in o.signal], [float(x) for x in p.get("signal", [0])])
    eq("cycle_length", float(o.cycle_length), float(sum(p.get("signal", [0]))))
    eq("signal_offset", o.signal_offset, float(p.get("signal_offset", 0)))
    eq("attribute", o.attribute, p.get("attribute"))
    eq("user_attribute", o.user_attribute, p.get("user_attribute"))
    fc = p.get("flow_capacity")
    eq("flow_capacity", o.flow_capacity, None if fc is None else float(fc))
    if fc is not None:
        n = p.get("number_of_lanes")
        eq("number_of_lanes", o.number_of_lanes, n if n is not None else math.ceil(fc / 0.8))
        if not p.get("auto"):
            eq("flag_lanes_automatically_determined", bool(o.flag_lanes_automatically_determined), n is None)


def link_params(o, p, cfg, cpp, der):
    def eq(what, a, b, rel=1e-9):
        if isinstance(b, float) and a is not None:
            if not (abs(a - b) <= rel * max(abs(a), abs(b)) or a == b):
                fail("link %s: %s is %s, expected %s (%s)" % (o.name, what, a, b, p), "link:" + what)
        elif a != b:
            fail("link %s: %s is %s, expected %s (%s)" % (o.name, what, a, b, p), "link:" + what)
    eq("length", o.length, p["length"])
    eq("number_of_lanes", o.number_of_lanes, int(p.get("number_of_lanes", 1)))
    for k, v in der.items():
        eq(k, getattr(o, k), float(v))
    eq("free_flow_speed", o.free_flow_speed, float(der["u"]))
    if p.get("jam_density_per_lane") is None:
        eq("jam_density", o.jam_density, float(der["kappa"]))
    eq("merge_priority", o.merge_priority, p.get("merge_priority", 1))
    g = p.get("signal_group", [0])
    eq("signal_group", list(o.signal_group), [g] if isinstance(g, int) else list(g))
    for k in ("capacity_out", "capacity_in"):
        c = p.get(k)
        if c is not None:
            eq(k, getattr(o, k), float(c))
        elif getattr(o, k) is not None and getattr(o, k) < formulas(p, cfg)["capacity"]:
            fail("link %s: default %s %s is below the capacity %s" % (o.name, k, getattr(o, k), formulas(p, cfg)["capacity"]), "link:" + k)
    eq("attribute", o.attribute, p.get("attribute"))
    eq("user_attribute", o.user_attribute, p.get("user_attribute"))
    t = p.get("toll")
    eq("toll", o.get_toll(7.0) if o.congestion_pricing is not None else 0, 0 if t is None else t)


def ref(W, other, kind, name, how):
    """The argument that denotes node/link `name`: str, np.str_, object, or object of another world."""
    import numpy as np
    if name is None:
        return None
    if how == 1:
        return np.str_(name)
    d = W.NODES_NAME_DICT if kind == "n" else W.LINKS_NAME_DICT
    if how == 2 and name in d:
        return d[name]
    if how == 3:
        d2 = other.NODES_NAME_DICT if kind == "n" else other.LINKS_NAME_DICT
        if name in d2:
            return d2[name]
    return name


def call(f, *a, **k):
    try:
        return f(*a, **k), None
    except Exception as e:
        return None, e


def build_other(ux, cpp, cfg):
    W = ux.World("other", cpp=cpp, **dict(scen.QUIET, tmax=500, **cfg))
    for n in NAMES:
        W.addNode(n, 0, 0)
    for l in LN:
        W.addLink(l, "a", "b", 100)
    return W


def construct(W, other, op, M, cfg, cpp):
    """Apply one call; returns True if it was refused."""
    k = op["k"]
    if k == "node":
        p = dict(op["p"])
        name, auto = op["name"], op["auto"]
        kw = {x: (list(v) if isinstance(v, list) else v) for x, v in p.items() if x not in ("x", "y")}
        bad = name in W.NODES_NAME_DICT and not auto
        o, e = call(W.addNode, name, p["x"], p["y"], auto_rename=auto, **kw)
        expect(e, bad, "addNode(%r)" % name)
        if e is None:
            check_name(o.name, name, name in [n["name"] for n in M.nodes])
            M.nodes.append({"name": o.name, "obj": o, "p": p})
            node_params(o, p, cfg, cpp)
        return e is not None
    names = [n["name"] for n in M.nodes]
    lnames = [l["name"] for l in M.links]
    if k == "link":
        p = dict(op["p"])
        s, t = op["s"], op["t"]
        lanes = p.get("number_of_lanes", 1)
        if op.get("weird"):
            lanes = 1
            p["number_of_lanes"] = 1
        name = op["name"]
        eff = "%s-%s" % (s, t) if name is None else name
        bad = s not in names or t not in names or int(lanes) != lanes or (eff in lnames and not op["auto"])
        kw = {x: v for x, v in p.items() if x not in ("length", "toll")}
        if isinstance(kw.get("signal_group"), list):
            kw["signal_group"] = list(kw["signal_group"])
        if p.get("toll") is not None:
            kw["congestion_pricing"] = lambda t, v=p["toll"]: v
        weird = op.get("weird")
        if weird:
            kw[weird[0]] = weird[1]
        o, e = call(W.addLink, name, ref(W, other, "n", s, op["hs"]), ref(W, other, "n", t, op["ht"]), p["length"], auto_rename=op["auto"], **kw)
        if weird and not bad:
            if e is None:
                M.links.append({"name": o.name, "obj": o, "p": p, "start": s, "end": t, "der": None})
            return e is not None
        expect(e, bad, "addLink(%r, %r, %r, %s)" % (name, s, t, kw))
        if e is None:
            check_name(o.name, eff, eff in lnames)
            der = formulas(p, cfg)
            M.links.append({"name": o.name, "obj": o, "p": p, "start": s, "end": t, "der": der})
            link_params(o, p, cfg, cpp, der)
        return e is not None
    if k == "vehicle":
        s, t = op["s"], op["t"]
        name = op["name"]
        vn = [v["name"] for v in M.vehs]
        pref = [x for x in op["prefer"]]
        auto_clash = name is None and str(len(vn)) in vn and not op["auto"]
        bad = s not in names or t not in names or any(x not in lnames for x in pref + op["avoid"]) or (name is not None and name in vn and not op["auto"]) or auto_clash
        kw = {}
        if name is not None:
            kw["name"] = name
        o, e = call(W.addVehicle, ref(W, other, "n", s, op["hs"]), ref(W, other, "n", t, op["ht"]), op["dep"], departure_time_is_time_step=op["ts"], auto_rename=op["auto"], attribute=op["attr"],
                    links_prefer=[ref(W, other, "l", x, op["hs"]) for x in pref], links_avoid=[ref(W, other, "l", x, op["ht"]) for x in op["avoid"]], **kw)
        expect(e, bad, "addVehicle(%r, %r, name=%r)" % (s, t, name))
        if e is None:
            want = name if name is not None else str(len(vn))
            check_name(o.name, want, want in vn)
            dt = cfg["reaction_time"] * cfg["deltan"]
            dep = op["dep"] if op["ts"] else int(op["dep"] / dt)
            if o.departure_time != dep or o.attribute != op["attr"] or o.state != "home":
                fail("vehicle %s: departure %s, attribute %s, state %s; expected %s, %s, home" % (o.name, o.departure_time, o.attribute, o.state, dep, op["attr"]), "vehicle")
            M.vehs.append({"name": o.name, "obj": o, "o": s, "d": t})
        return e is not None
    if k == "demand":
        s, t = op["s"], op["t"]
        vn = [v["name"] for v in M.vehs]
        n = op["n"]
        if any(str(len(vn) + j) in vn for j in range(n)):
            return False            # automatic names are taken: covered by "vehicle"
        bad = s not in names or t not in names
        dt = cfg["reaction_time"] * cfg["deltan"]
        o, e = call(W.adddemand, ref(W, other, "n", s, op["hs"]), ref(W, other, "n", t, op["ht"]), 0, n * dt, cfg["deltan"] / dt, attribute="z")
        expect(e, bad, "adddemand(%r, %r)" % (s, t))
        if e is None:
            new = list(W.VEHICLES.values())[len(vn):]
            if [v.name for v in new] != [str(len(vn) + j) for j in range(n)]:
                fail("adddemand for %d platoons added %s to %s" % (n, [v.name for v in new], vn), "demand")
            for v in new:
                M.vehs.append({"name": v.name, "obj": v, "o": s, "d": t})
        return e is not None
    if k == "signal":
        if not M.nodes:
            return False
        m = M.nodes[op["i"] % len(M.nodes)]
        ins = [l["name"] for l in M.links if l["end"] == m["name"]]
        g = [[(ins + LN)[x % (len(ins) + len(LN))] if op["any"] or not ins else ins[x % len(ins)] for x in q] for q in op["groups"]]
        sig = [10.0 * (1 + i) for i in range(op["n"])]
        bad = len(g) != len(sig) or any(x not in ins for q in g for x in q)
        before = (list(m["obj"].signal), m["obj"].cycle_length, m["obj"].signal_offset, m["obj"].signal_phase, m["obj"].signal_t, {l["name"]: list(l["obj"].signal_group) for l in M.links})
        o, e = call(m["obj"].override_signal, sig, [[ref(W, other, "l", x, 0) for x in q] for q in g], signal_offset=3, reset=True)
        expect(e, bad, "override_signal(%s, %s) at %s with incoming links %s" % (sig, g, m["name"], ins))
        after = (list(m["obj"].signal), m["obj"].cycle_length, m["obj"].signal_offset, m["obj"].signal_phase, m["obj"].signal_t, {l["name"]: list(l["obj"].signal_group) for l in M.links})
        if e is not None and after != before:
            fail("override_signal(%s, %s) at %s failed (%s) but changed %s to %s" % (sig, g, m["name"], e, before, after), "signal")
        if e is None:
            grp = dict(before[5])
            for x in {x for q in g for x in q}:
                grp[x] = [i for i, q in enumerate(g) for y in q if y == x]
            if [float(x) for x in after[0]] != sig or after[5] != grp:
                fail("override_signal(%s, %s) at %s set %s, groups %s, expected groups %s" % (sig, g, m["name"], after[0], after[5], grp), "signal")
            m["p"] = dict(m["p"], signal=sig, signal_offset=3)
            for l in M.links:
                l["p"] = dict(l["p"], signal_group=grp[l["name"]])
        return e is not None
    if k == "adjust":
        if not M.nodes:
            return False
        m = M.nodes[op["i"] % len(M.nodes)]
        ins = [l["obj"].capacity for l in M.links if l["end"] == m["name"]]
        outs = [l["obj"].capacity for l in M.links if l["start"] == m["name"]]
        m["obj"].adjust_node_capacity()
        if m["p"].get("flow_capacity") is None and ins and outs:
            fc = (max(ins) + max(outs)) / 2
            m["p"] = dict(m["p"], flow_capacity=fc, number_of_lanes=m["p"].get("number_of_lanes"))
            if m["p"]["number_of_lanes"] is not None:      # a lane count without a flow capacity: not defined which one wins
                m["p"]["number_of_lanes"] = m["obj"].number_of_lanes
                m["p"]["auto"] = True
        node_params(m["obj"], m["p"], cfg, cpp)
        return False
    if k in ("ffs", "jam"):
        c = [l for l in M.links if l["der"]]
        if not c:
            return False
        l = c[op["i"] % len(c)]
        x = op["x"]
        import warnings
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            _, e = call(l["obj"].change_free_flow_speed if k == "ffs" else l["obj"].change_jam_density, x)
        if e is not None:
            fail("change of %s to %s failed: %r" % (k, x, e), "change")
        if x >= 0:
            d = l["der"]
            l["der"] = derive(x if k == "ffs" else d["u"], x if k == "jam" else d["kappa"], int(l["p"].get("number_of_lanes", 1)), cfg["reaction_time"])
            if k == "jam":
                l["p"] = dict(l["p"], jam_density_per_lane=None)
        link_params2(l, cfg, cpp)
        return x < 0
    raise ValueError(k)


def link_params2(l, cfg, cpp):
    p = dict(l["p"])
    for k in ("capacity_in", "capacity_out"):
        p[k] = getattr(l["obj"], k)
    link_params(l["obj"], p, cfg, cpp, l["der"])


def expect(e, bad, what):
    if bad and e is None:
        fail("%s was accepted" % what, "accepted")
    if not bad and e is not None:
        fail("%s was refused: %r" % (what, e), "refused")


def check_name(got, want, clash):
    if clash:
        if got == want or not got.startswith(want):
            fail("renamed %r to %r" % (want, got), "rename")
    elif got != want:
        fail("named %r instead of %r" % (got, want), "rename")


def lookups(W, other, M, case, cpp):
    import numpy as np
    names = {n["name"]: n for n in M.nodes}
    lnames = {l["name"]: l for l in M.links}
    for kind, d, get, pool in (("node", names, W.get_node, NAMES), ("link", lnames, W.get_link, LN)):
        if get(None) is not None:
            fail("get_%s(None) is %s" % (kind, get(None)), "lookup")
        for n in sorted(set(pool) | set(d) | {"nowhere", ""}):
            for how in (0, 1, 2, 3):
                a = ref(W, other, kind[0], n, how)
                o, e = call(get, a)
                if n in d:
                    if o is not d[n]["obj"]:
                        fail("get_%s(%r) gives %r (%r)" % (kind, a, o, e), "lookup")
                elif e is None:
                    fail("get_%s(%r) gives %r although there is no such %s" % (kind, a, o, kind), "lookup")
        for a in (3, 2.5, ["a"]):
            o, e = call(get, a)
            if e is None:
                fail("get_%s(%r) gives %r" % (kind, a, o), "lookup")
    for x, y, r in case["points"]:
        d = [(float(n["p"]["x"]) - x) ** 2 + (float(n["p"]["y"]) - y) ** 2 for n in M.nodes]
        o = W.get_nearest_node(x, y)
        if not d:
            if o is not None:
                fail("nearest node in an empty world: %s" % o, "near")
        elif o is None or o is not M.nodes[d.index(min(d))]["obj"]:
            fail("get_nearest_node(%s, %s) gives %s, nearest is %s (squared distances %s)" % (x, y, o, M.nodes[d.index(min(d))]["name"], d), "near")
        got = [n.name for n in W.get_nodes_in_area(x, y, r)]
        want = [n["name"] for n, q in zip(M.nodes, d) if q < r ** 2]
        if got != want:
            fail("get_nodes_in_area(%s, %s, %s) gives %s, expected %s" % (x, y, r, got, want), "area")
    for q in case["routes"]:
        if not M.links:
            break
        ls = [M.links[i % len(M.links)] for i in q["l"]]
        if q["walk"]:
            ls = ls[:1]
            for i in q["l"][1:]:
                nx = [l for l in M.links if l["start"] == ls[-1]["end"]]
                if not nx:
                    break
                ls.append(nx[i % len(nx)])
        ok = all(a["end"] == b["start"] for a, b in zip(ls, ls[1:]))
        r, e = call(W.defRoute, [ref(W, other, "l", l["name"], q["how"]) for l in ls], name="r")
        if ok != (e is None):
            fail("defRoute(%s): %s although the links are %sconnected" % ([l["name"] for l in ls], "refused (%r)" % e if e else "accepted", "" if ok else "not "), "route")
        if ok and ([l for l in r] != [l["obj"] for l in ls] or list(r.links_name) != [l["name"] for l in ls] or len(r) != len(ls) or r[0] is not ls[0]["obj"] or not (r == W.defRoute([l["name"] for l in ls]))):
            fail("defRoute(%s) gives %s" % ([l["name"] for l in ls], r), "route")
    o, e = call(W.defRoute, ["nowhere"])
    if e is None:
        fail("defRoute(['nowhere']) was accepted", "route")


def make(cpp):
    def check(case):
        from vlib import env
        ux = env.setup(cpp=cpp)
        cfg = case["cfg"]
        W = ux.World("w", cpp=cpp, **dict(scen.QUIET, tmax=500, random_seed=0, **cfg))
        other = build_other(ux, cpp, cfg)
        M = Model()
        refused = 0
        for i, op in enumerate(case["ops"]):
            refused += construct(W, other, op, M, cfg, cpp)
            verify(W, M, cpp, "after call %d (%s)" % (i, op["k"]))
        for n in M.nodes:
            node_params(n["obj"], n["p"], cfg, cpp)
        for l in M.links:
            if l["der"]:
                link_params2(l, cfg, cpp)
        lookups(W, other, M, case, cpp)
        verify(W, M, cpp, "after lookups")
        return Info(refused > 0 and bool(M.links), ["refused"] if refused else [])
    return check


def make_run(cpp):
    """A world built with refused calls in between, with demand given before the links, by object or by name: the same simulation."""
    def check(case):
        from vlib import env, digest
        ux = env.setup(cpp=cpp)
        spec = case["spec"]
        res = []
        for variant in (0, 1):
            W = scen.new_world(ux, spec, cpp=cpp)
            bad = iter(case["bad"]) if variant else iter(())

            def nonsense():
                for b in bad:
                    n0, l0 = (W.NODES[0].name if W.NODES else "q"), (W.LINKS[0].name if W.LINKS else "q")
                    f = [lambda: W.addNode(n0, 5, 5), lambda: W.addLink(l0, n0, n0, 10), lambda: W.addLink("zz", "zz", n0, 10), lambda: W.addLink("zz", n0, None, 10), lambda: W.addLink("zz", n0, n0, 10, number_of_lanes=1.5),
                         lambda: W.addVehicle("zz", n0, 0), lambda: W.addVehicle(n0, "zz", 0), lambda: W.addVehicle(n0, n0, 0, links_prefer=["zz"]), lambda: W.adddemand("zz", n0, 0, 1000, 1), lambda: W.adddemand(n0, "zz", 0, 1000, 1),
                         lambda: W.get_node("zz"), lambda: W.get_link("zz"), lambda: W.defRoute(["zz"]), lambda: W.addNode("zz", 0, 0, signal=5), lambda: W.addLink("zz", n0, n0, 10, free_flow_speed="x"),
                         lambda: W.addVehicle(n0, n0, 0, links_avoid=["zz"])][b]
                    if b == 0 and n0 == "q" or b in (1, 3, 4, 14, 7, 15) and n0 == "q" or b == 1 and l0 == "q":
                        return
                    _, e = call(f)
                    if e is None and b not in (13, 14):
                        fail("nonsense call %d was accepted" % b, "accepted")
                    if e is None:
                        raise Skip("accepted")
                    return
            late = case["late"] if variant else 0
            for n in spec["nodes"]:
                nonsense()
                scen.add_network(W, dict(spec, nodes=[n], links=[]))
            if late and not any(v.get("route") or v.get("prefer") or v.get("avoid") for v in spec["vehicles"]):
                scen.add_demand(W, spec)
                late = 2
            for l in spec["links"]:
                nonsense()
                scen.add_network(W, dict(spec, nodes=[], links=[l]), by_object=bool(variant))
            if late != 2:
                nonsense()
                scen.add_demand(W, spec)
            nonsense()
            scen.run_full(W)
            res.append(digest.digest(W, cpp))
        d = digest.diff(res[0], res[1])
        if d:
            fail("the same scenario built another way (demand before links: %s, refused calls: %s) differs: %s" % (case["late"], case["bad"], d), "run")
        return Info(bool(case["bad"]) or bool(case["late"]))
    return check


def s_build():
    from hypothesis import strategies as st
    num = st.sampled_from([0, 1, -3, 2.5, 1000, 1e6, -1e7])
    oc = st.sampled_from([None, 0.8, 1.5, 0.0, 2.0, 0.4])
    how = st.sampled_from([0, 0, 1, 2, 3])
    nm = st.sampled_from(NAMES[:4] + NAMES)
    node = st.fixed_dictionaries({"k": st.just("node"), "name": nm, "auto": st.sampled_from([False, False, True]),
                                  "p": st.fixed_dictionaries({"x": num, "y": num}, optional={"signal": st.sampled_from([[0], [30, 60], [20.5, 10, 5]]), "signal_offset": st.sampled_from([0, 10, 200]), "flow_capacity": oc, "number_of_lanes": st.sampled_from([None, 1, 2, 3]),
                                                                                             "attribute": st.sampled_from(["m", 3]), "user_attribute": st.just([1, 2])})})
    end = st.one_of(st.sampled_from(["a", "b", "c"]), st.sampled_from(["a", "b", "c", "d", "A", "1", "nowhere", None]))
    link = st.fixed_dictionaries({"k": st.just("link"), "name": st.sampled_from([None] + LN + LN), "s": end, "t": end, "hs": how, "ht": how, "auto": st.sampled_from([False, False, True]),
                                  "weird": st.sampled_from([None] * 12 + [["free_flow_speed", 0], ["number_of_lanes", 0], ["jam_density", 0.0], ["signal_group", None], ["free_flow_speed", "x"], ["merge_priority", "x"], ["capacity_out", "x"]]),
                                  "p": st.fixed_dictionaries({"length": st.sampled_from([100, 1000, 55.5, 10])},
                                                             optional={"free_flow_speed": st.sampled_from([20, 10, 13.9, 33.3]), "jam_density": st.sampled_from([0.2, 0.15, 0.3]), "jam_density_per_lane": st.sampled_from([None, 0.1, 0.2, 0.25]),
                                                                       "number_of_lanes": st.sampled_from([1, 2, 3, 4, 2.0, 1.5]), "merge_priority": st.sampled_from([1, 0, 0.5, 2]), "signal_group": st.sampled_from([0, 1, [0], [0, 1], []]),
                                                                       "capacity_out": oc, "capacity_in": oc, "toll": st.sampled_from([None, 10, 0]), "attribute": st.sampled_from(["m", 3]), "user_attribute": st.just([1, 2])})})
    vl = st.lists(st.sampled_from(LN + ["nolink"]), max_size=1)
    veh = st.fixed_dictionaries({"k": st.just("vehicle"), "name": st.sampled_from([None, None] + VN), "s": st.sampled_from(["a", "b", "c", "nowhere", "d"]), "t": st.sampled_from(["a", "b", "c", "nowhere"]), "hs": how, "ht": how, "auto": st.sampled_from([False, False, True]),
                                 "prefer": st.one_of(st.just([]), vl), "avoid": st.one_of(st.just([]), vl), "dep": st.integers(0, 400), "ts": st.sampled_from([0, 1]), "attr": st.sampled_from([None, "q"])})
    dem = st.fixed_dictionaries({"k": st.just("demand"), "s": st.sampled_from(["a", "b", "c", "nowhere"]), "t": st.sampled_from(["a", "b", "c", "nowhere"]), "hs": how, "ht": how, "n": st.integers(1, 3)}).filter(lambda d: d["s"] != d["t"] or d["s"] == "nowhere")
    sig = st.fixed_dictionaries({"k": st.just("signal"), "i": st.integers(0, 9), "n": st.integers(1, 3), "groups": st.lists(st.lists(st.integers(0, 9), max_size=2), min_size=1, max_size=3), "any": st.booleans()})
    chg = st.fixed_dictionaries({"k": st.sampled_from(["ffs", "jam"]), "i": st.integers(0, 9), "x": st.sampled_from([10, 0.15, 30.5, 0.4, -1, 2])})
    ffs0 = st.fixed_dictionaries({"k": st.just("ffs"), "i": st.integers(0, 9), "x": st.just(0)})
    adj = st.fixed_dictionaries({"k": st.just("adjust"), "i": st.integers(0, 9)})
    kinds = [node, link, veh, dem, sig, chg, ffs0, adj]
    rest = st.sampled_from([0, 1, 1, 1, 1, 2, 2, 3, 4, 4, 5, 6, 7]).flatmap(lambda i: kinds[i])
    named = st.tuples(st.sampled_from([["a", "b", "c"], ["b", "a"], ["a", "b", "c", "d"], []]), st.lists(node, min_size=4, max_size=4)).map(lambda t: [dict(o, name=n) for n, o in zip(t[0], t[1])])
    ops = st.tuples(named, st.lists(node, max_size=2), st.lists(link, min_size=1, max_size=3), st.lists(rest, min_size=2, max_size=16)).map(lambda t: t[0] + t[1] + t[2] + t[3])
    return st.fixed_dictionaries({"cfg": st.fixed_dictionaries({"deltan": st.sampled_from([5, 1, 3]), "reaction_time": st.sampled_from([1, 0.5, 2])}), "ops": ops,
                                  "points": st.lists(st.tuples(num, num, st.sampled_from([0, 1, 5.0, 1e6, 2e7])).map(list), max_size=3),
                                  "routes": st.lists(st.fixed_dictionaries({"l": st.lists(st.integers(0, 9), min_size=1, max_size=4), "walk": st.booleans(), "how": how}), max_size=3)})


def s_run():
    from hypothesis import strategies as st
    return st.fixed_dictionaries({"spec": scen.scenario_strategy(max_steps=50, max_platoons=30, min_platoons=2), "late": st.booleans().map(int), "bad": st.lists(st.integers(0, 15), max_size=8)})


def make_zero(cpp):
    """A link whose free-flow speed is changed to zero stands still until the speed is raised again."""
    def check(case):
        from vlib import env
        ux = env.setup(cpp=cpp)
        spec = case["spec"]
        W = scen.finalize(scen.build(ux, spec, cpp=cpp))
        L = W.LINKS[case["i"] % len(W.LINKS)]
        N = W.TSIZE
        if N < 4:
            raise Skip("short")
        t0, t1 = 1 + int(case["t0"] * (N - 2)), 1 + int(case["t1"] * (N - 2))
        t0, t1 = min(t0, t1), max(t0, t1) + 1
        u0 = L.u
        prev, held = {}, 0
        for T in range(N):
            if T == t0:
                L.change_free_flow_speed(0)
            if T == t1:
                L.change_free_flow_speed(u0)
            W.exec_simulation(duration_t2=W.DELTAT)
            sn = scen.snap(W, cpp, T)
            pos = {n: v[2] for n, v in sn.vehs.items() if v[0] == "run" and v[1] == L.name}
            for n, x in pos.items():
                if not (0 <= x <= L.length):
                    fail("T=%d: vehicle %s is at %s of link %s (length %s)" % (T, n, x, L.name, L.length), "zero")
            if t0 <= T < t1:
                for n, x in pos.items():
                    if n in prev and x != prev[n]:
                        fail("T=%d: vehicle %s moved from %s to %s on link %s, whose free-flow speed is zero" % (T, n, prev[n], x, L.name), "zero")
                    elif n not in prev and x > 0:
                        fail("T=%d: vehicle %s entered link %s up to %s although its free-flow speed is zero" % (T, n, L.name, x), "zero")
                    held += 1
                if L.instant_travel_time(T * W.DELTAT) <= 0 or L.average_speed(T * W.DELTAT) < 0 or L.speed > 0:
                    fail("T=%d: link %s with zero free-flow speed reports speed %s, travel time %s" % (T, L.name, L.speed, L.instant_travel_time(T * W.DELTAT)), "zero")
            prev = pos
        df = W.analyzer.basic_to_pandas()
        W.analyzer.link_to_pandas(), W.analyzer.od_to_pandas()
        if df["total_trips"][0] != len(W.VEHICLES) * W.DELTAN:
            fail("%s trips reported, %s vehicles" % (df["total_trips"][0], len(W.VEHICLES) * W.DELTAN), "zero")
        return Info(held > 0)
    return check


def s_zero():
    from hypothesis import strategies as st
    f = st.floats(0, 1, allow_nan=False, width=16)
    return st.fixed_dictionaries({"spec": scen.scenario_strategy(max_steps=50, max_platoons=30, min_platoons=3), "i": st.integers(0, 9), "t0": f, "t1": f})


PARTS = [
    Part("build", s_build, make(False), 1500, 60000),
    Part("build-cpp", s_build, make(True), 1500, 60000, engine="cpp"),
    Part("run", s_run, make_run(False), 250, 8000),
    Part("run-cpp", s_run, make_run(True), 350, 12000, engine="cpp"),
    Part("zero-speed", s_zero, make_zero(False), 150, 6000),
    Part("zero-speed-cpp", s_zero, make_zero(True), 250, 10000, engine="cpp"),
]
