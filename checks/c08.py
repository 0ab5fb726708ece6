"""C08: routes driven (from observation) against the constraints given to the vehicles."""
from vlib.core import Part, Info, fail
from vlib import scen, trace

CPP = True
RULE = ("random networks with background traffic and up to 8 vehicles with an enforced route, links to avoid or links to prefer (given by name or object, at creation or during the run), "
        "with and without acyclic routing; non-trivial: a constrained vehicle passed a node where it had a choice")
BUDGET = {"quick": 200, "thorough": 3000}


def walk(links, start, dest, picks, seen):
    """A loop-free walk from start to dest steered by the integers `picks`."""
    outs = {}
    for l in links:
        outs.setdefault(l["start"], []).append(l)
    cur, r, seen = start, [], set(seen) | {start}

    def ok(n, seen):
        stack, vis = [n], {n}
        while stack:
            u = stack.pop()
            if u == dest:
                return True
            for l in outs.get(u, []):
                if l["end"] not in vis and l["end"] not in seen:
                    vis.add(l["end"])
                    stack.append(l["end"])
        return False
    k = 0
    while cur != dest:
        opt = [l for l in outs.get(cur, []) if l["end"] not in seen and ok(l["end"], seen | {l["end"]} - {dest})]
        if not opt:
            return None
        l = opt[picks[k % len(picks)] % len(opt)]
        k += 1
        r.append(l["name"])
        cur = l["end"]
        seen.add(cur)
    return r


def make(cpp):
    def check(case):
        from vlib import env
        ux = env.setup(cpp=cpp)
        spec = case["spec"]
        links = spec["links"]
        L = {l["name"]: l for l in links}
        outs = {}
        for l in links:
            outs.setdefault(l["start"], []).append(l["name"])
        names = [n["name"] for n in spec["nodes"]]
        W = scen.build(ux, spec, cpp=cpp)
        plan = {}          # name -> list of (first step the constraint governs, kind, value)
        todo = {}
        edges = [(names.index(l["start"]), names.index(l["end"])) for l in links]

        def give(W, T, c, v, new):
            """Apply constraint c to vehicle v at step T (new: returned keyword for creation)."""
            kind = c["kind"]
            if kind == "route":
                if T == 0 or v.state in ("home", "wait"):
                    r = walk(links, names[c["o"]], names[c["d"]], c["picks"], ())
                    pre = []
                elif v.state == "run" and v.x < v.link.length:
                    pre = [l.name for t, l in v.log_t_link if not isinstance(l, (str, int))]
                    if v.link.name not in pre:
                        pre.append(v.link.name)
                    seen = {L[q]["start"] for q in pre}
                    r = walk(links, L[pre[-1]]["end"], names[c["d"]], c["picks"], seen) if names[c["d"]] not in seen and L[pre[-1]]["end"] not in seen else None
                else:
                    return
                if r is None:
                    return
                full = pre + r
                v.enforce_route([W.get_link(q) for q in full] if c["obj"] else list(full), **({"set_avoid": True} if c["set_avoid"] else {}))
                plan.setdefault(v.name, []).append((T, "route", full))
            else:
                val = [links[i % len(links)]["name"] for i in c["links"]]
                if kind == "avoid" and not scen.safe_avoid(edges, {i % len(links) for i in c["links"]}):
                    return
                objs = [W.get_link(q) for q in val]
                if new is not None:
                    new["links_" + kind] = objs if c["obj"] else val
                elif cpp:
                    (v.set_links_prefer if kind == "prefer" else v.set_links_avoid)(objs if c["obj"] else val)
                else:
                    setattr(v, "links_" + kind, objs)
                return val
        for c in case["cons"]:
            c = dict(c, o=c["o"] % len(names), d=c["d"] % len(names))
            if c["o"] == c["d"] or not outs.get(names[c["o"]]):
                continue
            if c["at"] == 0 and c["kind"] != "route":
                kw = {}
                val = give(W, 0, c, None, kw)
                v = W.addVehicle(names[c["o"]], names[c["d"]], c["dep"], departure_time_is_time_step=1, **kw)
                if val:
                    plan.setdefault(v.name, []).append((-9, c["kind"], val))
            else:
                v = W.addVehicle(names[c["o"]], names[c["d"]], c["dep"], departure_time_is_time_step=1)
                if c["at"] == 0:
                    give(W, 0, c, v, None)
                else:
                    todo.setdefault(c["at"], []).append((c, v.name))

        def on_step(W, T):
            for c, n in todo.get(T, []):
                v = W.VEHICLES[n]
                if v.state in ("end", "abort"):
                    continue
                val = give(W, T, c, v, None)
                if val:
                    plan.setdefault(n, []).append((T, c["kind"], val))
        tr = scen.run_traced(W, cpp, on_step)
        if not tr:
            return Info(False)
        vis = trace.visits(W, tr)
        tags, choice = set(), False
        acyclic = spec["W"].get("no_cyclic_routing")
        for n, xs in vis.items():
            P = plan.get(n, [])
            for (T0, kind, val) in P:
                if kind == "route":
                    got = [x.link for x in xs]
                    if got != val[:len(got)]:
                        fail("vehicle %s was given the route %s (at step %s), it drove %s" % (n, val, T0, got))
                    if W.VEHICLES[n].state == "end" and got != val:
                        fail("vehicle %s was given the route %s, it ended after %s" % (n, val, got))
                    if W.VEHICLES[n].state == "abort":
                        fail("vehicle %s with the valid route %s was aborted" % (n, val))
                    if len(got) > 1:
                        tags.add("route")
                    choice |= any(len(outs[L[g]["start"]]) > 1 for g in got)
            if any(k == "route" for _, k, _ in P):
                continue
            for i, x in enumerate(xs):
                node = L[x.link]["start"]
                opts = list(outs[node])
                for (T0, kind, val) in P:
                    if x.tin < T0 + (1 if x.prev is not None else 0):
                        opts = None
                        break
                    hit = set(opts) & set(val)
                    if kind == "prefer" and hit:
                        if x.link not in hit:
                            fail("vehicle %s prefers %s (since step %s) but took %s at node %s in step %d" % (n, val, T0, x.link, node, x.tin))
                        tags.add("prefer")
                        choice |= len(opts) > 1
                        opts = sorted(hit)
                    if kind == "avoid" and hit:
                        if x.link in hit:
                            fail("vehicle %s avoids %s (since step %s) but took %s at node %s in step %d although %s exist" % (n, val, T0, x.link, node, x.tin, sorted(set(opts) - hit)))
                        tags.add("avoid")
                        choice |= len(opts) > 1
                        opts = sorted(set(opts) - hit)
                if opts is not None and acyclic and i:
                    been = {L[y.link]["start"] for y in xs[:i]}
                    if L[x.link]["end"] in been and any(L[q]["end"] not in been for q in opts):
                        fail("acyclic routing: vehicle %s went from %s to the visited node %s although %s lead elsewhere" % (
                            n, node, L[x.link]["end"], [q for q in opts if L[q]["end"] not in been]))
                    if any(L[q]["end"] in been for q in opts) and len(opts) > 1:
                        tags.add("acyclic choice")
                        choice = True
        return Info(choice, sorted(tags))
    return check


def strategy():
    from hypothesis import strategies as st

    @st.composite
    def gen(draw):
        spec = draw(scen.scenario_strategy(kinds=["grid", "tworoute", "random", "ring", "cross", "grid", "random"], max_platoons=25, vehicles=False, min_steps=25, max_steps=90))
        if draw(st.booleans()):
            spec["W"]["no_cyclic_routing"] = True
        con = st.fixed_dictionaries({
            "o": st.integers(0, 8), "d": st.integers(0, 8), "dep": st.integers(0, 25), "kind": st.sampled_from(["route", "avoid", "prefer"]),
            "links": st.lists(st.integers(0, 23), min_size=1, max_size=6), "picks": st.lists(st.integers(0, 5), min_size=1, max_size=6),
            "obj": st.booleans(), "set_avoid": st.booleans(), "at": st.sampled_from([0, 0, 1, 5, 12, 20])})
        return {"spec": spec, "cons": draw(st.lists(con, min_size=1, max_size=8))}
    return gen()


PARTS = [
    Part("python", strategy, make(False), 2000, 40000),
    Part("cpp", strategy, make(True), 2000, 40000, engine="cpp"),
]
