"""C26: street networks processed by the OpenStreetMap importers against their input."""
import io, math, warnings, contextlib
from collections import Counter
from vlib.core import Part, Info, fail, Skip, close
from vlib import scen
from vlib.digest import digest, diff

CPP = True
RULE = ("random street tables, OSMnx graphs and street geometries (the download is replaced, everything after it is real) passed through both importers; results compared to the tables by identity of the streets, the worlds also "
        "simulated against worlds built by hand; non-trivial: nodes were merged or streets had irregular attributes")
BUDGET = {"quick": 240, "thorough": 3000}
ASSUMPTIONS = ["the download, map projection and neatnet are taken as given: their output is the input of what is checked"]


def quiet(f, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return f(*a, **k)


# ----------------------------------------------------------------------------- merging

def tables(case):
    s = case["scale"]
    ids = [("n%d" % i if case["strid"] else 100 + i) for i in range(len(case["xy"]))]
    nodes = [[ids[i], x * s, y * s] for i, (x, y) in enumerate(case["xy"])]
    links = []
    n = len(nodes)
    for i, (a, b, lanes, nm) in enumerate(case["edges"]):
        links.append(["w%d" % (nm if nm is not None else 100 + i), ids[a % n], ids[b % n], lanes, 5 + i * 0.25])
    return nodes, links


def dist(p, q):
    return math.sqrt((p[0] - q[0]) ** 2 + (p[1] - q[1]) ** 2)


def one_round(nodes, links, thr, both, out, what):
    """One merging round judged on its own; speeds identify the streets. Returns how many nodes were merged."""
    nodes2, links2 = out
    pos = {n[0]: (n[1], n[2]) for n in nodes}
    by = {l[4]: l for l in links}
    pos2 = {}
    for n in nodes2:
        if n[0] not in pos or (n[1], n[2]) != pos[n[0]] or n[0] in pos2:
            fail("%s: node %s of the result is none of the input or appears twice" % (what, n), "nodes")
        pos2[n[0]] = (n[1], n[2])
    pairs, m = {}, {}

    def bind(v, w, l):
        if m.setdefault(v, w) != w:
            fail("%s: node %s was merged into %s and, by street %s, into %s" % (what, v, m[v], l, w), "merge")
    rev = []
    for l in links2:
        a, b = l[1], l[2]
        if a not in pos2 or b not in pos2:
            fail("%s: street %s joins nodes that do not exist" % (what, l), "dangling")
        if a == b:
            fail("%s: street %s leads to its own start" % (what, l), "loop")
        if (a, b) in pairs:
            fail("%s: two streets from %s to %s" % (what, a, b), "duplicate")
        pairs[a, b] = l
        if not close(l[5], dist(pos2[a], pos2[b]), 1e-12):
            fail("%s: street %s is %s long, its nodes are %s apart" % (what, l, l[5], dist(pos2[a], pos2[b])), "length")
        src = by.get(l[4])
        if src is None or src[3] != l[3]:
            fail("%s: street %s has attributes of no street of the input (%s)" % (what, l, src), "attributes")
        if l[0] == src[0]:
            bind(src[1], a, l)
            bind(src[2], b, l)
        elif both and l[0] == src[0] + "-reverse":
            bind(src[1], b, l)
            bind(src[2], a, l)
            rev.append((a, b))
        else:
            fail("%s: street %s comes from %s" % (what, l, src), "attributes")
    used = {x for p in pairs for x in p}
    if used != set(pos2):
        fail("%s: nodes without streets remain: %s" % (what, sorted(map(str, set(pos2) - used))), "isolated")
    if both:
        for a, b in pairs:
            if (b, a) not in pairs:
                fail("%s: no street back from %s to %s" % (what, b, a), "bidirectional")
    near = {v: set() for v in pos}
    short = 0
    for l in links:
        a, b = l[1], l[2]
        if a != b and dist(pos[a], pos[b]) <= thr:
            near[a].add(b)
            near[b].add(a)
            short += 1
    dom = {}
    for v in pos:
        if v in pos2:
            bind(v, v, "kept node")
        d = [v] + sorted(near[v], key=str)
        if v in m:
            if m[v] not in d:
                fail("%s: node %s was merged into %s, to which no street up to %s long leads" % (what, v, m[v], thr), "threshold")
            d = [m[v]]
        dom[v] = d
    touch = {v: [] for v in pos}
    for l in links:
        touch[l[1]].append(l)
        touch[l[2]].append(l)
    free = [v for v in pos if v not in m]
    budget = [20000]

    def ok(v):
        w = m[v]
        if w in m and m[w] != w:
            return False
        if w != v and any(m[u] == v for u in m if u != v):
            return False
        for l in touch[v]:
            a, b = m.get(l[1]), m.get(l[2])
            if a is not None and b is not None and a != b and (a, b) not in pairs:
                return False
        return True

    def search(i):
        budget[0] -= 1
        if budget[0] < 0:
            return True
        if i == len(free):
            return True
        v = free[i]
        for w in dom[v]:
            m[v] = w
            if ok(v) and search(i + 1):
                return True
            del m[v]
        return False
    for v in list(m):
        if not ok(v):
            fail("%s: a street at node %s (merged into %s) is missing from the result" % (what, v, m[v]), "missing")
    if not search(0):
        fail("%s: no merging of nodes along short streets explains the result: nodes %s streets %s" % (what, nodes2, links2), "missing")
    if budget[0] >= 0:
        for a, b in rev:
            if any(m[l[1]] == a and m[l[2]] == b for l in links):
                fail("%s: a street from %s to %s exists, its reverse street was put in its place" % (what, a, b), "bidirectional")
    gone = sum(1 for v in pos if m.get(v, v) != v)
    if short and not gone and budget[0] >= 0:
        fail("%s: %d streets up to %s long, nothing was merged" % (what, short, thr), "progress")
    return gone


def relabel(links):
    return [list(l[:4]) + [5 + i * 0.25] + list(l[5:]) for i, l in enumerate(links)]


def c_merge(case):
    from vlib import env
    env.setup(cpp=False)
    from uxsim import OSMImporter as M
    post = M.OSMImporter.osm_network_postprocessing
    nodes, links = tables(case)
    thr, both, n = case["thr"] * case["scale"], case["both"], case["iters"]
    keep = repr((nodes, links))
    out = quiet(post, nodes, links, thr, node_merge_iteration=n, enforce_bidirectional=both)
    if repr((nodes, links)) != keep:
        fail("the input tables were changed", "input")
    cur, merged = (nodes, links), 0
    for i in range(n):
        merged += one_round(cur[0], relabel(cur[1]), thr, both, quiet(post, cur[0], relabel(cur[1]), thr, node_merge_iteration=1, enforce_bidirectional=both), "round %d" % i)
        cur = quiet(post, cur[0], cur[1], thr, node_merge_iteration=1, enforce_bidirectional=both)
    x = diff([sorted(map(str, c)) for c in cur], [sorted(map(str, c)) for c in out])
    if x:
        fail("%d rounds one by one | at once: %s" % (n, x), "rounds")
    # attributes through all rounds
    src = {l[4]: l for l in links}
    for l in out[1]:
        s = src.get(l[4])
        if s is None or s[3] != l[3] or not (l[0] == s[0] or both and l[0] == s[0] + "-reverse"):
            fail("street %s of the result comes from %s" % (l, s), "attributes")
        pos = {k[0]: (k[1], k[2]) for k in nodes}
        a, b = (l[1], l[2]) if l[0] == s[0] else (l[2], l[1])
        for v, w in ((s[1], a), (s[2], b)):
            if dist(pos[v], pos[w]) > n * thr * (1 + 1e-9):
                fail("street %s moved from %s to %s in %d merges of at most %s" % (l, v, w, n, thr), "threshold")
    # reachability of what survives
    def reach(ls):
        adj = {}
        for l in ls:
            adj.setdefault(l[1], set()).add(l[2])
        r = {}
        for v in {k[0] for k in out[0]}:
            seen, todo = {v}, [v]
            while todo:
                for w in adj.get(todo.pop(), ()):
                    if w not in seen:
                        seen.add(w)
                        todo.append(w)
            r[v] = seen
        return r
    r0, r1 = reach(links), reach(out[1])
    for v in r1:
        lost = {w for w in r0[v] if w in r1} - r1[v]
        if lost:
            fail("node %s reached %s before and does not any more" % (v, sorted(map(str, lost))), "reach")
    full = quiet(post, nodes, links, thr, node_merge_iteration=len(nodes) + 1, enforce_bidirectional=both)
    for l in full[1]:
        if l[5] <= thr:
            fail("street %s of %s remains although it may be merged (%d rounds)" % (l, l[5], len(nodes) + 1), "progress")
    return Info(merged > 0, ["both" if both else "directed"])


# ----------------------------------------------------------------------------- worlds

def new_world(ux, cpp, c):
    return ux.World("", deltan=c["deltan"], tmax=c["tmax"], print_mode=0, save_mode=0, show_mode=0, random_seed=c["seed"], hard_deterministic_mode=c["det"], cpp=cpp)


def old_part(W, c):
    """Nodes and links the world already has; names may be used by the import as well."""
    ns = [W.addNode(str(x), 1e7 + i, -1e7) for i, x in enumerate(c["old_nodes"])]
    for i in range(len(ns) - 1):
        W.addLink(c["old_links"][i % len(c["old_links"])] + (str(i) if i >= len(c["old_links"]) else ""), ns[i], ns[i + 1], length=500)
    return view(W)


def view(W):
    return {"nodes": [[n.name, n.x, n.y, n.flow_capacity, n.number_of_lanes] for n in W.NODES],
            "links": [[l.name, l.start_node.name, l.end_node.name, float(l.length), float(l.u), l.number_of_lanes, float(l.kappa)] for l in W.LINKS]}


def check_names(W):
    for kind, col, d in (("node", W.NODES, W.NODES_NAME_DICT), ("link", W.LINKS, W.LINKS_NAME_DICT)):
        names = [x.name for x in col]
        if len(set(names)) != len(names) or set(d) != set(names):
            fail("%s names are not unique: %s" % (kind, names), "names")
    for l in W.LINKS:
        if l.name not in l.start_node.outlinks or l.name not in l.end_node.inlinks:
            fail("link %s is not connected to its nodes" % l.name, "connect")


def by_hand(ux, cpp, c, W, caps):
    """The same network built by the ordinary interface."""
    V = new_world(ux, cpp, c)
    for n in W.NODES:
        V.addNode(n.name, n.x, n.y, **caps.get(n.name, {}))
    for l in W.LINKS:
        V.addLink(l.name, l.start_node.name, l.end_node.name, length=l.length, free_flow_speed=l.u, jam_density=l.kappa, number_of_lanes=l.number_of_lanes)
    if not cpp:
        V.rng.bit_generator.state = W.rng.bit_generator.state
    return V


def simulate(W, c):
    names = [n.name for n in W.NODES]
    adj = {}
    for l in W.LINKS:
        adj.setdefault(l.start_node.name, []).append(l.end_node.name)
    for a, b, t, vol in c["trips"]:
        o = names[a % len(names)]
        seen, todo = [o], [o]
        while todo:
            for w in adj.get(todo.pop(0), ()):
                if w not in seen:
                    seen.append(w)
                    todo.append(w)
        if len(seen) > 1:
            W.adddemand(o, seen[1:][b % (len(seen) - 1)], t, t + 20, volume=vol * c["deltan"])
    quiet(scen.run_full, W)


def same_run(ux, cpp, c, W, caps):
    if len(W.NODES) < 2 or not W.LINKS:
        return 0
    V = by_hand(ux, cpp, c, W, caps)
    simulate(W, c)
    simulate(V, c)
    x = diff(digest(V, cpp), digest(W, cpp))
    if x:
        fail("simulated: network built by hand | imported: %s" % x, "simulation")
    return len(W.VEHICLES)


def c_world(cpp):
    def check(case):
        from vlib import env
        ux = env.setup(cpp=cpp)
        from uxsim import OSMImporter as M
        nodes, links = tables(case)
        if len({(n[1], n[2]) for n in nodes}) < len(nodes):
            raise Skip("nodes in one place")
        nodes, links = quiet(M.OSMImporter.osm_network_postprocessing, nodes, links, case["thr"] * case["scale"], node_merge_iteration=case["iters"], enforce_bidirectional=case["both"])
        links = relabel(links)
        W = new_world(ux, cpp, case)
        old = old_part(W, case)
        quiet(M.OSMImporter.osm_network_to_World, W, nodes, links, default_jam_density=case["jam"], coef_degree_to_meter=case["coef"])
        check_names(W)
        now = view(W)
        for k in ("nodes", "links"):
            if now[k][:len(old[k])] != old[k]:
                fail("%s the world had before were changed: %s | %s" % (k, old[k], now[k][:len(old[k])]), "old")
        at = {(n[1], n[2]): n for n in now["nodes"][len(old["nodes"]):]}
        if len(now["nodes"]) - len(old["nodes"]) != len(nodes) or len(now["links"]) - len(old["links"]) != len(links):
            fail("%d nodes and %d links added, the tables have %d and %d" % (len(now["nodes"]) - len(old["nodes"]), len(now["links"]) - len(old["links"]), len(nodes), len(links)), "count")
        name = {}
        taken = {n[0] for n in old["nodes"]}
        for n in nodes:
            g = at.get((n[1], n[2]))
            if g is None or (str(n[0]) not in taken and g[0] != str(n[0])) or g[3] is not None:
                fail("node %s of the table is %s in the world" % (n, g), "nodes")
            name[n[0]] = g[0]
        got = {l[4]: l for l in now["links"][len(old["links"]):]}
        used = Counter([l[0] for l in links] + [l[0] for l in old["links"]])
        for l in links:
            g = got.get(float(l[4]))
            want = [name[l[1]], name[l[2]], l[5] * case["coef"], float(l[4]), l[3], case["jam"] * l[3]]
            if g is None or g[1:3] != want[:2] or not all(close(a, b, 1e-9) for a, b in zip(g[3:], want[2:])) or (used[l[0]] == 1 and g[0] != l[0]):
                fail("link %s of the table is %s in the world, expected %s" % (l, g, want), "links")
        k = same_run(ux, cpp, case, W, {})
        return Info(k > 0, ["clash" if taken & {str(n[0]) for n in nodes} else "apart"])
    return check


# ----------------------------------------------------------------------------- OSMnx graphs

TYPES = ["motorway", "trunk", "primary", "secondary", "tertiary", "residential", "living_street", "service", "unclassified", "motorway_link", "primary_link", "busway"]
SPEED = {"motorway": 100, "trunk": 80, "primary": 60, "secondary": 50, "tertiary": 40, "residential": 30, "living_street": 20, "service": 20, "others": 40}
LANES = {"motorway": 3, "trunk": 3, "primary": 2, "secondary": 2, "tertiary": 2, "residential": 1, "living_street": 1, "service": 1, "others": 1}
CRS = "EPSG:32654"


def streets(case):
    """(from, to, oneway, attributes) of every street; positions of the nodes."""
    n = len(case["xy"])
    pos = [(400000 + 150.0 * x + 1.375 * i, 3900000 + 150.0 * y + 0.625 * i * i) for i, (x, y) in enumerate(case["xy"])]
    out = []
    for i, s in enumerate(case["streets"]):
        a, b = s["a"] % n, s["b"] % n
        if a == b or dist(pos[a], pos[b]) < 1:
            continue
        out.append((a, b, s, i))
    return pos, out


def attrs(case, s, i):
    d = {"osmid": 1000 + i, "oneway": bool(s["oneway"])}
    for k in ("highway", "name", "lanes", "maxspeed"):
        if k not in case["absent"] and s[k] is not None:
            d[k] = list(s[k]) if isinstance(s[k], list) else s[k]
    return d


def graph(case, first=False):
    import networkx as nx
    from shapely.geometry import LineString
    G = nx.MultiDiGraph(crs=CRS)
    pos, ss = streets(case)
    for i, (x, y) in enumerate(pos):
        if any(i in t[:2] for t in ss):
            G.add_node(i if not first else 5000 + i, x=x, y=y)
    for a, b, s, i in ss:
        mid = [] if s["bend"] is None else [((pos[a][0] + pos[b][0]) / 2 + s["bend"], (pos[a][1] + pos[b][1]) / 2 + 3 * i + 5)]
        L = LineString([pos[a]] + mid + [pos[b]])
        d = attrs(case, s, i)
        o = 5000 if first else 0
        G.add_edge(a + o, b + o, length=L.length, geometry=L, reversed=False, **d)
        if not s["oneway"]:
            G.add_edge(b + o, a + o, length=L.length, geometry=LineString(list(L.coords)[::-1]), reversed=True, **d)
    if case["nokey0"] and first:
        for u, v, k in list(G.edges(keys=True)):
            if k == 0 and G.number_of_edges(u, v) > 1:
                G.remove_edge(u, v, 0)
                break
    return G, pos, ss


def c_download(case):
    """The first importer's tables against the graph OSMnx delivers."""
    from vlib import env
    env.setup(cpp=False)
    from uxsim import OSMImporter as M
    import osmnx as ox
    G, pos, ss = graph(case, first=True)
    asked = []

    def fake(*a, **k):
        asked.append(k)
        return G
    real = ox.graph.graph_from_bbox
    ox.graph.graph_from_bbox = fake
    kw = {}
    for t in ("trunk", "primary", "secondary", "residential", "tertiary", "others", "mortorway"):
        kw["default_number_of_lanes_" + t] = case["lanes_def"][t] if t in case["lanes_def"] else {"mortorway": 3, "trunk": 3, "primary": 2, "secondary": 2}.get(t, 1)
        kw["default_maxspeed_" + t] = {"mortorway": 101, "trunk": 61, "primary": 52, "secondary": 53, "residential": 31, "tertiary": 32}.get(t, 33)
    try:
        args = dict(bbox=[1, 2, 3, 4]) if case["bbox"] else dict(west=1, south=2, east=3, north=4)
        nodes, links = quiet(M.OSMImporter.import_osm_data, custom_filter="F", **args, **kw)
    finally:
        ox.graph.graph_from_bbox = real
    if len(asked) != 1 or list(asked[0].get("bbox", [])) != [1, 2, 3, 4] or asked[0].get("custom_filter") != "F":
        fail("the area was asked for as %s" % asked, "area")
    want = []
    odd = 0
    for u, v, d in G.edges(data=True):
        if "highway" not in d:
            continue
        h = d["highway"]
        kinds = h if isinstance(h, list) else [h]
        t = next((t for t in ("motorway", "trunk", "primary", "secondary", "residential", "tertiary") if (t in h)), "others")
        t = {"motorway": "mortorway"}.get(t, t)
        try:
            lanes = int(d["lanes"])
        except (KeyError, ValueError, TypeError):
            lanes = max(1, kw["default_number_of_lanes_" + t])
            odd += 1
        try:
            sp = float(d["maxspeed"]) / 3.6
        except (KeyError, ValueError, TypeError):
            sp = kw["default_maxspeed_" + t] / 3.6
            odd += 1
        want.append([u, v, lanes, round(sp, 9)])
    got = [[l[1], l[2], l[3], round(l[4], 9)] for l in links]
    if sorted(got) != sorted(want):
        fail("streets of the map %s, of the tables %s" % ([x for x in sorted(want) if x not in got], [x for x in sorted(got) if x not in want]), "tables")
    ends = {x for w in want for x in w[:2]}
    if sorted(map(tuple, nodes)) != sorted((x, G.nodes[x]["x"], G.nodes[x]["y"]) for x in ends):
        fail("nodes %s, the streets join %s" % (nodes, sorted(ends)), "nodes")
    return Info(odd > 0 and len(links) > 1, [])


def rule(d, case, speed, lanes, known):
    """(speed, lanes per direction) by the documented rules; None: not decided here."""
    h = d.get("highway")
    if isinstance(h, list):
        c = Counter(h).most_common()
        h = c[0][0] if len(c) == 1 or c[0][1] > c[1][1] else None
        if h is None:
            return None
    elif h is None:
        h = known
        if h is None:
            return None
    sp = d.get("maxspeed")
    try:
        if isinstance(sp, str) and not case["override"]:
            sp = float(sp) / 3.6
        elif isinstance(sp, list) and not case["override"]:
            sp = sum(map(float, sp)) / len(sp) / 3.6
        else:
            sp = next((speed[k] for k in speed if k in h), speed["others"])
    except ValueError:
        sp = speed["others"]
    n = d.get("lanes")
    one = d["oneway"]
    try:
        if isinstance(n, str) and not case["override"]:
            n = int(n)
            n = n if one else max(1, n // 2)
        elif isinstance(n, list) and not case["override"]:
            n = max(map(int, n))
            n = n if one else max(1, n // 2)
        else:
            n = next((lanes[k] for k in lanes if k in h), None)
            if n is None:
                n = lanes["others"] if one else max(1, lanes["others"] // 2)
    except ValueError:
        n = lanes["others"] if one else max(1, lanes["others"] // 2)
    return sp, n


def expected(rows, case, oriented=True):
    """One entry (from point, to point, length, speed or None, lanes or None) per direction of every street."""
    speed = {k: v / 3.6 for k, v in SPEED.items()}
    speed.update(case["speed_by"])
    lanes = dict(LANES)
    lanes.update(case["lanes_by"])
    want, odd = [], 0
    for p, q, length, d in rows:
        known = None
        if d.get("highway") is None:
            near = [r[3].get("highway") for r in rows if r[3] is not d and {r[0], r[1]} & {p, q}]
            feed = [r for r in rows if r[3] is not d and (r[1] == p or r[0] == q)]
            if not oriented:  # a two-way street may have been read in either direction
                feed = [r for r in feed if r[3]["oneway"] and d["oneway"]]
            if feed and len(set(map(str, near))) == 1 and isinstance(near[0], str):
                known = near[0]
        r = rule(d, case, speed, lanes, known)
        odd += d.get("highway") is None or not isinstance(d.get("lanes"), str) or not isinstance(d.get("maxspeed"), str)
        sp, n = r if r is not None else (None, None)
        want.append((p, q, length, sp, n))
        if not d["oneway"]:
            want.append((q, p, length, sp, n))
    return want, odd


def compare(W, old, want, case):
    now = view(W)
    for k in ("nodes", "links"):
        if [x[:3] + x[5:6] * (k == "links") for x in now[k][:len(old[k])]] != [x[:3] + x[5:6] * (k == "links") for x in old[k]]:
            fail("%s the world had before were changed: %s | %s" % (k, old[k], now[k][:len(old[k])]), "old")
    xy = {n[0]: (round(n[1], 5), round(n[2], 5)) for n in now["nodes"]}
    new = now["nodes"][len(old["nodes"]):]
    places = {x for w in want for x in w[:2]}
    if Counter(xy[n[0]] for n in new) != Counter(places):
        fail("nodes at %s, the streets join %s" % (sorted(xy[n[0]] for n in new), sorted(places)), "nodes")
    left = [(xy[l[1]], xy[l[2]]) + tuple(l[3:6]) + (l[0],) for l in now["links"][len(old["links"]):]]
    if len(left) != len(want):
        fail("%d links, the streets have %d directions" % (len(left), len(want)), "count")
    for w in sorted(want, key=lambda w: (w[3] is None, str(w))):
        hit = next((g for g in left if g[:2] == w[:2] and close(g[2], w[2], 1e-7) and (w[3] is None or close(g[3], w[3], 1e-9) and g[4] == w[4])), None)
        if hit is None:
            fail("street %s has no link; left are %s" % (w, [g for g in left if g[:2] == w[:2]]), "links")
        left.remove(hit)
    caps = {}
    for n in W.NODES[len(old["nodes"]):]:
        if case["setcap"]:
            m = max(l.number_of_lanes for l in list(n.inlinks.values()) + list(n.outlinks.values()))
            if not close(n.flow_capacity or 0, m * 1.6) or n.number_of_lanes != 2 * m:
                fail("node %s has capacity %s and %s lanes, its widest link %d lanes" % (n.name, n.flow_capacity, n.number_of_lanes, m), "capacity")
            caps[n.name] = dict(flow_capacity=n.flow_capacity, number_of_lanes=n.number_of_lanes)
        elif n.flow_capacity is not None:
            fail("node %s has a capacity of %s" % (n.name, n.flow_capacity), "capacity")
    for n in W.NODES[:len(old["nodes"])]:
        if n.flow_capacity is not None:
            fail("node %s the world had before has a capacity of %s" % (n.name, n.flow_capacity), "old")
    return caps


def c_import2(cpp, mode):
    """The second importer; mode: plain (no simplification), given (simplified streets given), real (neatnet itself)."""
    def check(case):
        from vlib import env
        ux = env.setup(cpp=cpp)
        from uxsim.OSMImporter2 import OSMImporter2 as M
        import osmnx as ox, neatnet, geopandas as gpd, pandas as pd
        from shapely.geometry import LineString
        G, pos, ss = graph(case)
        if not ss:
            raise Skip("no streets")
        W = new_world(ux, cpp, case)
        old = old_part(W, case)
        r2 = lambda p: (round(p[0], 5), round(p[1], 5))
        seen = []

        def simple(gdf, **k):
            if mode == "real":
                try:
                    out = real[1](gdf, **k)
                except Exception as e:
                    raise Skip("neatnet: %s" % type(e).__name__)
            else:
                rows = []
                for a, b, s, i in ss:
                    mid = [] if s["bend"] is None else [((pos[a][0] + pos[b][0]) / 2 + s["bend"], (pos[a][1] + pos[b][1]) / 2 + 3 * i + 5)]
                    d = {k: None for k in ("highway", "name", "lanes", "maxspeed") if k not in case["absent"]}
                    d.update(attrs(case, s, i))
                    d["geometry"] = LineString([pos[a]] + mid + [pos[b]])
                    rows.append(d)
                df = pd.DataFrame({k: pd.Series([r[k] for r in rows], dtype=object if k not in ("osmid", "oneway") else None) for k in rows[0] if k != "geometry"})
                out = gpd.GeoDataFrame(df, geometry=[r["geometry"] for r in rows], crs=CRS)
            seen.append((out, k))
            return out
        real = ox.graph.graph_from_bbox, neatnet.neatify
        ox.graph.graph_from_bbox = lambda *a, **k: G
        neatnet.neatify = simple
        try:
            kw = {}
            if case["speed_by"]:
                kw["maxspeed_by_road_type"] = case["speed_by"]
            if case["lanes_by"]:
                kw["lanes_by_road_type"] = case["lanes_by"]
            try:
                quiet(M.osm_network_to_World, W, bbox=[1, 2, 3, 4], simplification=mode != "plain", override_osm_attributes=case["override"], set_node_capacity=case["setcap"],
                      kwargs_dict_for_osmnx_project_graph={"to_crs": CRS}, **kw)
            except KeyError as e:
                if mode == "real" and not seen:
                    raise Skip("graph")
                raise
        finally:
            ox.graph.graph_from_bbox, neatnet.neatify = real
        rows = []
        if mode == "real":
            null = lambda x: not isinstance(x, (list, str)) and (x is None or x != x)
            for i, row in seen[0][0].iterrows():
                L = row.geometry
                d = {k: row[k] for k in ("highway", "name", "lanes", "maxspeed") if k in row and not null(row[k])}
                if not isinstance(row["oneway"], (bool, __import__("numpy").bool_)):
                    raise Skip("direction unknown")
                d["oneway"] = bool(row["oneway"])
                if r2(L.coords[0]) == r2(L.coords[-1]):
                    raise Skip("loop")
                rows.append((r2(L.coords[0]), r2(L.coords[-1]), L.length, d))
        else:
            for a, b, s, i in ss:
                mid = [] if s["bend"] is None else [((pos[a][0] + pos[b][0]) / 2 + s["bend"], (pos[a][1] + pos[b][1]) / 2 + 3 * i + 5)]
                rows.append((r2(pos[a]), r2(pos[b]), LineString([pos[a]] + mid + [pos[b]]).length, attrs(case, s, i)))
        want, odd = expected(rows, case, mode != "plain")
        check_names(W)
        caps = compare(W, old, want, case)
        k = same_run(ux, cpp, case, W, caps)
        return Info(k > 0 and odd > 0, ["capacity" if case["setcap"] else "free", "override" if case["override"] else "osm"])
    return check


# ----------------------------------------------------------------------------- generators

def common(st):
    return {"deltan": st.sampled_from([5, 1, 2]), "tmax": st.sampled_from([100, 250, 400]), "seed": st.integers(0, 999), "det": st.booleans(),
            "old_nodes": st.lists(st.sampled_from(["0", "1", "2", "100", "101", "n0", "n1", "a"]), max_size=3, unique=True), "old_links": st.lists(st.sampled_from(["w1", "w2", "0", "1", "b"]), min_size=1, max_size=3, unique=True),
            "trips": st.lists(st.tuples(st.integers(0, 20), st.integers(0, 20), st.integers(0, 60), st.integers(1, 12)).map(list), min_size=1, max_size=6)}


def s_tables():
    from hypothesis import strategies as st
    co = st.integers(0, 7)
    return st.fixed_dictionaries(dict(common(st), **{
        "xy": st.lists(st.tuples(co, co).map(list), min_size=2, max_size=14), "edges": st.lists(st.tuples(st.integers(0, 13), st.integers(0, 13), st.integers(1, 4), st.sampled_from([None, None, 1, 2])).map(list), min_size=1, max_size=30),
        "scale": st.sampled_from([1, 0.0009765625, 0.25]), "strid": st.booleans(), "thr": st.sampled_from([1, 2, 1.5, 0, 3, 1.4142135623730951, 2.25, 5]), "both": st.booleans(), "iters": st.integers(1, 5),
        "jam": st.sampled_from([0.2, 0.125, 0.15]), "coef": st.sampled_from([111000, 100, 1000])}))


def s_tables_distinct():
    from hypothesis import strategies as st
    return s_tables().map(lambda c: dict(c, xy=[list(p) for p in dict.fromkeys(map(tuple, c["xy"]))])).filter(lambda c: len(c["xy"]) >= 2)


def s_graph():
    from hypothesis import strategies as st
    co = st.integers(0, 4)
    hw = st.sampled_from([0, 0, 0, 1, 2]).flatmap(lambda k: [st.sampled_from(TYPES), st.just(None), st.lists(st.sampled_from(TYPES[:6]), min_size=1, max_size=3)][k])
    ln = st.sampled_from([0, 0, 1, 1, 2, 3]).flatmap(lambda k: [st.integers(1, 5).map(str), st.just(None), st.lists(st.integers(1, 4).map(str), min_size=2, max_size=3), st.sampled_from(["3;2", "many"])][k])
    sp = st.sampled_from([0, 0, 1, 1, 2, 3]).flatmap(lambda k: [st.sampled_from(["30", "50", "80", "42.5"]), st.just(None), st.lists(st.sampled_from(["30", "50", "60"]), min_size=2, max_size=3), st.sampled_from(["30 mph", "none"])][k])
    nm = st.sampled_from([None, "w1", "w2", "w3", ["w1", "w4"], "0", "1"])
    street = st.fixed_dictionaries({"a": st.integers(0, 9), "b": st.integers(0, 9), "oneway": st.booleans(), "highway": hw, "lanes": ln, "maxspeed": sp, "name": nm, "bend": st.sampled_from([None, None, 20.0, -35.0])})
    return st.fixed_dictionaries(dict(common(st), **{
        "xy": st.lists(st.tuples(co, co).map(list), min_size=2, max_size=9, unique_by=tuple), "streets": st.lists(street, min_size=1, max_size=12), "absent": st.sampled_from([[], [], [], ["maxspeed"], ["lanes", "name"], ["maxspeed", "lanes"]]),
        "nokey0": st.booleans(), "override": st.booleans(), "setcap": st.booleans(), "bbox": st.booleans(), "speed_by": st.sampled_from([{}, {}, {"primary": 10.0, "others": 7.5}, {"unclassified": 6.0}]),
        "lanes_by": st.sampled_from([{}, {}, {"primary": 4, "service": 2}, {"others": 3}]), "lanes_def": st.sampled_from([{}, {"mortorway": 4, "trunk": 0}, {"tertiary": 2, "others": 5}])}))


def s_graph_big():
    """Irregular lattices, which neatnet can process."""
    from hypothesis import strategies as st

    def lattice(c):
        n = 4
        c = dict(c, xy=[[i, j] for i in range(n) for j in range(n)])
        es = [(i * n + j, k * n + l) for i in range(n) for j in range(n) for k, l in ((i + 1, j), (i, j + 1)) if k < n and l < n]
        ss = c["streets"]
        c["streets"] = [dict(ss[i % len(ss)], a=a, b=b, bend=None) for i, (a, b) in enumerate(es) if i % 7 != c["seed"] % 7]
        return c
    return s_graph().map(lattice)


PARTS = [
    Part("merge", s_tables, c_merge, 3000, 100000),
    Part("world", s_tables_distinct, c_world(False), 200, 6000),
    Part("world-cpp", s_tables_distinct, c_world(True), 400, 12000, engine="cpp"),
    Part("download", s_graph, c_download, 600, 15000),
    Part("streets", s_graph, c_import2(False, "given"), 200, 6000),
    Part("streets-cpp", s_graph, c_import2(True, "given"), 300, 9000, engine="cpp"),
    Part("plain", s_graph, c_import2(False, "plain"), 100, 4000),
    Part("plain-cpp", s_graph, c_import2(True, "plain"), 150, 6000, engine="cpp"),
    Part("neatnet", s_graph_big, c_import2(False, "real"), 40, 1500),
    Part("neatnet-cpp", s_graph_big, c_import2(True, "real"), 40, 1500, engine="cpp"),
]
