"""C30: labels, coordinates, attributes and units are immaterial."""
import copy, json, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
from vlib.core import Part, Info, fail, Skip
from vlib import scen
from vlib.digest import digest, diff

CPP = True
RULE = ("random scenarios simulated twice: once as generated, once with every node, link and explicit vehicle renamed (orders of names permuted), coordinates shifted and attributes attached, or with lengths or times measured in "
        "another unit (a power of two, so that the arithmetic is exact); non-trivial: at least two vehicles drove and (renaming) there was more than one link at some node")
BUDGET = {"quick": 200, "thorough": 3000}
ASSUMPTIONS = ["vehicles generated by demand keep their automatic names", "coordinates do not enter demand definitions here (area demand is C06)", "the documented constant 0.8 veh/s of adjust_node_capacity is a physical quantity, so the units parts leave that option out and give lane numbers for nodes with a capacity"]


def relabel(x, nm):
    """Replace "<name>" and plain registered names in a digest."""
    if isinstance(x, str):
        if x.startswith("<") and x.endswith(">"):
            return "<%s>" % nm.get(x[1:-1], x[1:-1])
        return nm.get(x, x)
    if isinstance(x, list):
        return [relabel(y, nm) for y in x]
    if isinstance(x, dict):
        return {k: relabel(y, nm) for k, y in x.items()}
    return x


def ordered(d):
    d = dict(d)
    for k in ("veh", "link", "node"):
        d[k] = list(d[k].values())
    return d


def rename_spec(spec, lab):
    s = copy.deepcopy(spec)
    pool = lab["names"]
    objs = [("N", n["name"]) for n in s["nodes"]] + [("L", l["name"]) for l in s["links"]]
    nn, ll = {}, {}
    for i, n in enumerate(s["nodes"]):
        nn[n["name"]] = pool[i % len(pool)] + ("" if i < len(pool) else str(i))
    for i, l in enumerate(s["links"]):
        k = (i + lab["shift"]) % len(pool)
        ll[l["name"]] = pool[k] + ("" if i < len(pool) else "." + str(i // len(pool)))
    for i, n in enumerate(s["nodes"]):
        n["name"] = nn[n["name"]]
        n["x"] += lab["dx"]
        n["y"] += lab["dy"]
        if lab["attr"]:
            n["attribute"] = {"a": i}
            n["user_attribute"] = [i, "z"]
    for i, l in enumerate(s["links"]):
        l["name"], l["start"], l["end"] = ll[l["name"]], nn[l["start"]], nn[l["end"]]
        if lab["attr"]:
            l["attribute"] = "attr%d" % (i % 2)
            l["user_attribute"] = {"b": i}
    for d in s["demands"]:
        d["orig"], d["dest"] = nn[d["orig"]], nn[d["dest"]]
        if lab["attr"]:
            d["attribute"] = lab["attr"]
    vv = {}
    for i, v in enumerate(s.get("vehicles", [])):
        v["orig"], v["dest"] = nn[v["orig"]], nn[v["dest"]]
        for k in ("prefer", "avoid", "route"):
            if v.get(k):
                v[k] = [ll[x] for x in v[k]]
        if "name" in v:
            vv[v["name"]] = "v" + pool[i % len(pool)]
            v["name"] = vv[v["name"]]
        if lab["attr"]:
            v["attribute"] = lab["attr"]
    return s, nn, ll, vv


def drove(W):
    return sum(1 for v in W.VEHICLES.values() if v.log_t_link and len(v.log_t_link) > 1)


def make_rename(cpp):
    def check(case):
        from vlib import env
        ux = env.setup(cpp=cpp)
        spec = copy.deepcopy(case["spec"])
        for i, v in enumerate(spec.get("vehicles", [])):
            if case["vnames"] >> i & 1:
                v["name"] = "V%d" % i
        s2, nn, ll, vv = rename_spec(spec, case["lab"])
        A, B = scen.build(ux, spec, cpp=cpp), scen.build(ux, s2, cpp=cpp, name=case["wname"])
        for W in (A, B):
            scen.run_full(W)
        a, b = ordered(digest(A, cpp)), ordered(digest(B, cpp))
        a["reg"] = [[n.name for n in A.NODES], [l.name for l in A.LINKS]]
        b["reg"] = [[n.name for n in B.NODES], [l.name for l in B.LINKS]]
        # names of nodes and links may coincide after renaming: links are what digests show as <...>, nodes only in 'reg'
        a["reg"] = [[nn[x] for x in a["reg"][0]], [ll[x] for x in a["reg"][1]]]
        a["veh"] = relabel(a["veh"], ll)
        d = diff(a, b)
        if d:
            fail("after renaming, shifting or labelling: " + d, "rename")
        want = [vv.get(x, x) for x in A.VEHICLES]
        if want != list(B.VEHICLES):
            fail("vehicles are registered as %s instead of %s" % (list(B.VEHICLES)[:10], want[:10]), "rename-veh")
        if case["lab"]["attr"]:
            for n, m in zip(s2["nodes"], B.NODES):
                if m.attribute != n["attribute"] or m.user_attribute != n["user_attribute"]:
                    fail("attributes of node %s are %r, %r" % (m.name, m.attribute, m.user_attribute), "attr")
            for n, m in zip(s2["links"], B.LINKS):
                if m.attribute != n["attribute"] or m.user_attribute != n["user_attribute"]:
                    fail("attributes of link %s are %r, %r" % (m.name, m.attribute, m.user_attribute), "attr")
            for v in B.VEHICLES.values():
                if v.attribute != case["lab"]["attr"]:
                    fail("vehicle %s has attribute %r" % (v.name, v.attribute), "attr")
        outs = {}
        for l in spec["links"]:
            outs[l["start"]] = outs.get(l["start"], 0) + 1
        return Info(drove(A) > 1 and max(outs.values()) > 1, ["constraints"] if any(v.get("prefer") or v.get("avoid") for v in spec.get("vehicles", [])) else [])
    return check


# --- units

def scale_spec(spec, kl, kt):
    s = copy.deepcopy(spec)
    W = s["W"]
    for k in ("reaction_time", "tmax", "duo_update_time"):
        W[k] *= kt
    for n in s["nodes"]:
        if isinstance(n.get("signal"), list):
            n["signal"] = [x * kt for x in n["signal"]]
        if "signal_offset" in n:
            n["signal_offset"] *= kt
        if "flow_capacity" in n:
            n["flow_capacity"] /= kt
    for l in s["links"]:
        l["length"] *= kl
        l["free_flow_speed"] *= kl / kt
        for k in ("jam_density", "jam_density_per_lane"):
            if k in l:
                l[k] /= kl
        for k in ("capacity_in", "capacity_out"):
            if k in l:
                l[k] /= kt
        t = l.get("toll")
        if t:
            for k in ("t0", "t1", "v", "v0"):
                if k in t:
                    t[k] *= kt
    for d in s["demands"]:
        d["t_start"] *= kt
        d["t_end"] *= kt
        if "flow" in d:
            d["flow"] /= kt
    for v in s.get("vehicles", []):
        if not v.get("departure_time_is_time_step"):
            v["t"] *= kt
    return s


def scale_digest(d, kl, kt):
    """The digest expected of a world measured in other units."""
    T = lambda x: x * kt if isinstance(x, float) else ([T(y) for y in x] if isinstance(x, list) else x)
    L = lambda x: x * kl if isinstance(x, float) else ([L(y) for y in x] if isinstance(x, list) else x)
    V = lambda x: x * kl / kt if isinstance(x, float) else ([V(y) for y in x] if isinstance(x, list) else x)
    Q = lambda x: x / kt if isinstance(x, float) else ([Q(y) for y in x] if isinstance(x, list) else x)
    NEG = lambda f: (lambda x: [y if y == -1.0 else f(y) for y in x])
    out = dict(d)
    out["veh"] = {}
    for n, v in d["veh"].items():
        v = dict(v)
        v["travel_time"] = v["travel_time"] if v["travel_time"] == -1.0 else T(v["travel_time"])
        v["distance_traveled"] = L(v["distance_traveled"])
        v["log_t_link"] = [[T(x[0])] + list(x[1:]) for x in v["log_t_link"]]
        for k, f in (("log_t", T), ("log_x", NEG(L)), ("log_v", NEG(V)), ("log_s", NEG(L))):
            if k in v:
                v[k] = f(v[k])
        out["veh"][n] = v
    out["link"] = {}
    for n, l in d["link"].items():
        l = dict(l)
        for k, f in (("traveltime_instant", T), ("traveltime_actual", T), ("u", V), ("kappa", lambda x: x / kl), ("w", V), ("capacity", Q), ("capacity_out", Q), ("capacity_in", Q), ("speed", V)):
            l[k] = f(l[k])
        out["link"][n] = l
    out["dist"] = {k: T(v) for k, v in d["dist"].items()}
    if "stats" in d:
        s = dict(d["stats"])
        for k in ("total_travel_time", "average_travel_time", "total_delay", "average_delay"):
            if k in s and s[k] != -1.0:
                s[k] = T(s[k])
        if "total_distance_traveled" in s:
            s["total_distance_traveled"] = L(s["total_distance_traveled"])
        out["stats"] = s
    return out


def make_units(cpp):
    def check(case):
        from vlib import env
        ux = env.setup(cpp=cpp)
        kl, kt = 2.0 ** case["kl"], 2.0 ** case["kt"]
        s1 = copy.deepcopy(case["spec"])
        for n in s1["nodes"]:
            if "flow_capacity" in n:
                n.setdefault("number_of_lanes", 1 + case["lanes"])
        s2 = scale_spec(s1, kl, kt)
        A, B = scen.build(ux, s1, cpp=cpp), scen.build(ux, s2, cpp=cpp)
        for W in (A, B):
            scen.run_full(W)
        a, b = scale_digest(digest(A, cpp), kl, kt), digest(B, cpp)
        # travel-time penalties of closed links and unreachable costs are numbers, not times
        d = diff(a, b, 0.0)
        if d:
            fail("in units 1/%g of length, 1/%g of time: %s" % (kl, kt, d), "units")
        return Info(drove(A) > 1, ["length"] * (kl != 1) + ["time"] * (kt != 1))
    return check


NAMES = ["a", "B", "10", "9", "z", "Node 1", "-", "ü", "x-y", "L1", "L0", "N0", "N1", "Z9", "0", "_", "orig", "home", "A/B", "aa"]


def s_rename():
    from hypothesis import strategies as st
    lab = st.fixed_dictionaries({"names": st.permutations(NAMES), "shift": st.integers(0, 19), "dx": st.sampled_from([0, 1000, -3.5]), "dy": st.sampled_from([0, -7, 250000.25]),
                                 "attr": st.sampled_from([None, "x", "attr"])})
    return st.fixed_dictionaries({"spec": scen.scenario_strategy(max_steps=60, max_platoons=40, zero_caps=True, adjust=True), "lab": lab, "vnames": st.integers(0, 7), "wname": st.sampled_from(["", "w", "N0"])})


def s_units():
    from hypothesis import strategies as st
    return st.fixed_dictionaries({"spec": scen.scenario_strategy(max_steps=60, max_platoons=40, zero_caps=True, adjust=False), "kl": st.sampled_from([0, 1, -1, 3, -10, 10]),
                                  "kt": st.sampled_from([0, 1, -1, 2, -6, 6]), "lanes": st.integers(0, 2)})


PARTS = [
    Part("rename-python", s_rename, make_rename(False), 500, 15000),
    Part("rename-cpp", s_rename, make_rename(True), 1000, 40000, engine="cpp"),
    Part("units-python", s_units, make_units(False), 500, 15000),
    Part("units-cpp", s_units, make_units(True), 1000, 40000, engine="cpp"),
]
