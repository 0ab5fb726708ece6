"""Interpreter of C14's call sequences: runs in a child process (with or without sanitizers); never decides anything itself.

Reads one JSON case per line, answers one JSON line {"digest": hash, "log": [...]}. Ordinary exceptions are answers, too."""
import sys, os, json, hashlib, gc

ODD_LINK = ["number_of_lanes", "length", "free_flow_speed", "jam_density", "merge_priority", "capacity_out", "capacity_in", "signal_group"]
ODD_NODE = ["flow_capacity", "number_of_lanes", "signal", "signal_offset"]
ODD_WORLD = ["deltan", "reaction_time", "duo_update_time", "duo_update_weight", "duo_noise", "random_seed", "instantaneous_TT_timestep_interval", "vehicle_logging_timestep_interval",
             "threads", "tmax"]


def val(x):
    return float(x) if isinstance(x, str) else x


def short(v, depth=0):
    """Comparable text of any result."""
    from vlib.digest import norm
    import pandas as pd
    if isinstance(v, pd.DataFrame):
        return [list(map(str, v.columns)), v.astype(str).values.tolist()]
    try:
        return norm(v)
    except Exception as e:
        return "norm " + type(e).__name__


def make_odd(spec, odd):
    for o in odd:
        k, f, i, x = o
        x = [val(y) for y in x] if isinstance(x, list) else val(x)
        if k == "W":
            spec["W"][f] = x
        elif k == "L" and spec["links"]:
            l = spec["links"][i % len(spec["links"])]
            if f == "jam_density":
                l.pop("jam_density_per_lane", None)
            l[f] = x
        elif k == "N":
            spec["nodes"][i % len(spec["nodes"])][f] = x
        elif k == "D" and spec["demands"]:
            d = spec["demands"][i % len(spec["demands"])]
            if f in ("flow", "volume"):
                d.pop("flow", None)
                d.pop("volume", None)
            d[f] = x
        elif k == "V":
            nn = spec["nodes"]
            spec["vehicles"].append({"orig": nn[i % len(nn)]["name"], "dest": nn[(i // 3) % len(nn)]["name"], "t": x})
    return spec


class Runner:
    def __init__(self, ux, case):
        self.ux, self.case, self.log = ux, case, []
        self.W, self.store, self.keep = None, None, []
        self.extra = 0

    def do(self, what, f):
        try:
            r = short(f())
        except (KeyboardInterrupt, SystemExit):
            raise
        except BaseException as e:
            r = "error " + type(e).__name__
        self.log.append([what, r])

    def veh(self, i):
        vs = list(self.W.VEHICLES.values())
        return vs[i % len(vs)] if vs else None

    def call(self, c):
        W, f, i, j, n, x, y = self.W, c["f"], c["i"], c["j"], c["n"], val(c["x"]), val(c["y"])
        L = W.LINKS
        l = L[i % len(L)] if L else None
        nd = W.NODES[j % len(W.NODES)]
        nd2 = W.NODES[i % len(W.NODES)]
        cw = W._cpp_world
        if f == "run":
            W.exec_simulation(duration_t=(1 + n) * W.DELTAT)
        elif f == "run until":
            W.exec_simulation(until_t=x)
        elif f == "finalize":
            W.finalize_scenario()
        elif f == "link times":
            out = []
            for g in ("arrival_count", "departure_count", "num_vehicles_t", "average_density", "instant_travel_time", "actual_travel_time", "average_speed", "average_flow", "get_toll"):
                self.do(f + " " + g, lambda: getattr(l, g)(x))
            for g in ("inflow_between", "average_travel_time_between"):
                self.do(f + " " + g, lambda: getattr(l, g)(x, y))
        elif f == "link now":
            for g in ("speed", "density", "flow", "num_vehicles", "num_vehicles_queue", "cum_arrival", "cum_departure", "traveltime_actual", "traveltime_instant", "capacity_in_remain", "capacity_out_remain", "vehicles"):
                self.do(f + " " + g, lambda: getattr(l, g))
        elif f == "capacity":
            for g, z in (("capacity_in", x), ("capacity_out", y)):
                self.do(f, lambda: setattr(l, g, z))
        elif f == "node capacity":
            nd.flow_capacity = x
            if n % 2:
                nd.number_of_lanes = n - 2
        elif f == "adjust":
            nd.adjust_node_capacity()
        elif f == "speed":
            l.change_free_flow_speed(x)
        elif f == "jam":
            l.change_jam_density(y)
        elif f == "penalty":
            l.route_choice_penalty = x
        elif f == "priority":
            l._cpp_link.merge_priority = x
        elif f == "signal":
            nd.override_signal([abs(x) + 1, abs(y) + 1][:1 + n % 2], signal_offset=y, reset=bool(n & 4), groups={l: [n - 3]} if n & 8 and l in nd.inlinks.values() else None)
        elif f == "signal raw":
            if n % 3 == 0:
                nd.signal = [abs(x) + 1] * (n % 4)
            elif n % 3 == 1:
                nd.signal_phase = n - 3
            else:
                nd.signal_t = x
        elif f == "vehicle state":
            v = self.veh(j)
            if v is not None:
                for g in ("state", "link", "x", "v", "arrival_time", "travel_time", "link_arrival_time", "distance_traveled", "flag_trip_aborted", "departure_time_in_second"):
                    self.do(f + " " + g, lambda: getattr(v, g))
                self.do(f, lambda: v.get_xy_coords(x))
                self.do(f, lambda: v.get_xy_coords())
        elif f == "vehicle logs":
            v = self.veh(j)
            if v is not None:
                for g in ("log_t", "log_x", "log_s", "log_v", "log_lane", "log_state", "log_link", "log_t_link"):
                    self.do(f + " " + g, lambda: getattr(v, g))
                self.do(f, lambda: v.traveled_route())
        elif f == "route":
            v = self.veh(j)
            if v is not None:
                r = [L[(i + k * (n + 1)) % len(L)] for k in range(n % 5)]
                v.enforce_route(r)
        elif f == "prefer":
            v = self.veh(j)
            if v is not None:
                v.set_links_prefer([l.name, L[n % len(L)].name][:n % 3])
        elif f == "avoid":
            v = self.veh(j)
            if v is not None:
                v.set_links_avoid([l.name, L[n % len(L)].name][:n % 3])
        elif f == "raw vehicle":
            v = self.veh(j)
            if v is not None:
                c_ = v._cpp_vehicle
                if n % 4 == 0:
                    c_.trip_abort = bool(n & 4)
                elif n % 4 == 1:
                    c_.route_choice_uncertainty = x
                elif n % 4 == 2:
                    self.do(f, lambda: v.add_dest(nd.name))
                else:
                    v.distance_traveled = x
        elif f == "add vehicle":
            W.addVehicle(nd.name, nd2.name, x)
        elif f == "add vehicle now":
            W.addVehicle(nd.name, nd2.name, W.T + n, departure_time_is_time_step=1)
        elif f == "add demand":
            W.adddemand(nd.name, nd2.name, x, x + 10 * W.DELTAT if abs(x) < 1e6 else y, flow=min(abs(y), 2.0) if y == y else 0.5)
        elif f == "add node":
            self.extra += 1
            W.addNode("X%d" % self.extra, 0, 0, **({"signal": [5.0, 5.0]} if n & 1 else {}))
        elif f == "add link":
            self.extra += 1
            W.addLink("XL%d" % self.extra, nd.name, nd2.name, 100, free_flow_speed=20, number_of_lanes=1 + n % 3)
        elif f == "route search":
            cw.update_adj_time_matrix()
        elif f == "routechoice":
            for g in ("dist", "next", "dist_record"):
                self.do(f + " " + g, lambda: getattr(W.ROUTECHOICE, g))
        elif f == "defroute":
            r = W.defRoute([L[(i + k) % len(L)].name for k in range(n % 4)])
            self.do(f, lambda: r.actual_travel_time(x))
        elif f == "k routes":
            self.do(f, lambda: {str(a): b for a, b in cw.enumerate_k_random_routes_cpp(n - 1, j).items()})
        elif f == "store":
            self.store = cw.enumerate_od_route_sets_ids_cpp(1 + n % 4, j)
            self.do(f, lambda: self.store.to_csr())
        elif f == "make store":
            nn = len(W.NODES)
            d = {}
            for a in range(min(nn, 3)):
                d[((a + i) % (nn + (n & 1)), (a + j) % nn)] = [[(k * 3 + n) % (len(L) + (2 if n & 2 else 0)) - (1 if n & 4 else 0) for k in range(j % 3 + 1)], []][:1 + n % 2]
            self.store = cw.make_od_route_set_store(d)
        elif f in ("due", "dso"):
            if self.store is not None:
                if f == "due":
                    self.do(f, lambda: cw.route_swap_due(self.store, abs(x) % 1.0 if x == x and abs(x) < 1e9 else 0.5, bool(n & 1), j))
                else:
                    self.do(f, lambda: cw.route_swap_dso(self.store, 0.5, n - 2, bool(n & 1), j))
        elif f == "batch":
            m = len(W.VEHICLES) + n - 3
            cw.batch_enforce_routes([[(k * 7 + i + q) % (len(L) + 2) - 1 for q in range((k + n) % 4)] for k in range(max(0, m))])
        elif f == "batch csr":
            import numpy as np
            m = max(0, len(W.VEHICLES) + n - 3)
            ids, off = [], [0]
            for k in range(m):
                ids += [(k * 5 + j + q) % (len(L) + 2) - 1 for q in range((k + i) % 3)]
                off.append(len(ids))
            cw.batch_enforce_routes_csr(np.array(ids, dtype=np.int32), np.array(off, dtype=np.int64))
        elif f == "externality":
            for t in (n, -n, W.T, W.T + n, W.TSIZE - 1, W.TSIZE, W.TSIZE + n, 2 ** 31 - 1, -2 ** 31):
                self.do(f, lambda: l._cpp_link.estimate_congestion_externality(t))
            for t in (x, y):
                self.do(f + " route", lambda: cw.estimate_congestion_externality_route([L[(i + k) % len(L)] for k in range(1 + n % 3)], t))
        elif f == "toll":
            l._cpp_link.set_toll_timeseries([x, y, 5.0][:n % 4])
        elif f == "logs":
            self.do(f, lambda: cw.build_all_vehicle_logs_flat_compact())
            self.do(f, lambda: cw.build_enter_log_data())
            self.do(f, lambda: cw.get_all_vehicle_states())
        elif f == "analyse":
            for g in ("basic_analysis", "od_analysis", "link_to_pandas", "vehicles_to_pandas", "basic_to_pandas", "log_vehicles_to_pandas", "link_traffic_state_to_pandas", "mfd_to_pandas"):
                a = getattr(W.analyzer, g, None)
                if a is not None:
                    self.do(f + " " + g, a)
        elif f == "print":
            cw.print_scenario_stats()
            cw.print_simple_results()
            W.print_scenario_stats()
        elif f == "lookup":
            for g in ("get_node", "get_link"):
                for z in ("nothing", l.name if g == "get_link" else nd.name):
                    self.do(f, lambda: getattr(cw, g)(z))
            for z in (n, -1 - n, len(W.VEHICLES), 2 ** 31 - 1):
                self.do(f, lambda: cw.get_vehicle_by_index(z))
        elif f == "threads":
            cw.num_threads = n - 2
        elif f == "tmax":
            if not W.finalized:
                cw.set_t_max(x if abs(x) < 1e5 else 100.0)
        elif f == "keep":
            self.keep += [l, nd] + ([self.veh(j)] if W.VEHICLES else [])
        elif f == "options":
            cw.instantaneous_TT_timestep_interval = n - 1
            cw.duo_update_weight = x if abs(x) < 10 else 0.5
        elif f == "log off":
            cw.vehicle_log_mode = n & 1
        elif f == "raw csr":
            import numpy as np
            off = [0, n, n + 1, j, n * 3][:2 + n % 4]
            cw.batch_enforce_routes_csr(np.zeros(min(n, 3), dtype=np.int32), np.array(off, dtype=np.int64))

    def run(self):
        from vlib import scen, ops
        from vlib.digest import digest
        spec = json.loads(json.dumps(self.case["spec"]))
        make_odd(spec, self.case["odd"])

        def mk():
            self.W = scen.new_world(self.ux, spec, cpp=True)
        self.do("world", mk)
        if self.W is None:
            return self.log
        W = self.W
        items = [("nodes", [dict(spec, nodes=[n], links=[]) for n in spec["nodes"]], scen.add_network), ("links", [dict(spec, nodes=[], links=[l]) for l in spec["links"]], scen.add_network),
                 ("demands", [dict(spec, demands=[d], vehicles=[]) for d in spec["demands"]], scen.add_demand), ("vehicles", [dict(spec, demands=[], vehicles=[v]) for v in spec["vehicles"]], scen.add_demand)]
        for what, parts, f in items:
            for p in parts:
                self.do(what, lambda: f(W, p) and None)
        if not W.NODES:
            return self.log
        for c in self.case["before"]:
            self.do(c["f"], lambda: self.call(c))
        self.do("finalize", lambda: W.finalize_scenario() if not W.finalized else None)
        for c in self.case["calls"]:
            self.do(c["f"], lambda: self.call(c))
        self.do("end", lambda: W.exec_simulation() if self.case["end"] else None)
        for c in self.case["after"]:
            self.do(c["f"], lambda: self.call(c))
        self.do("digest", lambda: digest(W, True))
        store = self.store
        self.W = W = None
        if self.case["drop"]:
            self.case = None
            gc.collect()
            for o in self.keep:
                for a in ("state", "speed", "signal_phase", "log_t", "num_vehicles", "link", "cum_arrival"):
                    self.do("kept " + a, lambda: getattr(o, a))
        return self.log


def main():
    from vlib import env
    import faulthandler
    out = os.fdopen(os.dup(1), "w")
    dn = os.open(os.devnull, os.O_WRONLY)
    os.dup2(dn, 1)
    ux = env.setup(cpp=True)
    out.write("ready\n")
    out.flush()
    for line in sys.stdin:
        case = json.loads(line)
        r = Runner(ux, case)
        log = r.run()
        r.W = None
        del r
        gc.collect()
        txt = json.dumps(log, sort_keys=True, default=str)
        out.write(json.dumps({"digest": hashlib.sha256(txt.encode()).hexdigest(), "log": log if case.get("full") else [[a, b if isinstance(b, str) and b.startswith("error") else "ok"] for a, b in log]}) + "\n")
        out.flush()


if __name__ == "__main__":
    main()
