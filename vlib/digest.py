"""Plain comparable view of a world: everything its evolution determines."""
import math


def norm(v):
    """Plain comparable value."""
    import numpy as np
    if v is None or isinstance(v, (str, bool)):
        return v
    if isinstance(v, (np.bool_,)):
        return bool(v)
    if isinstance(v, (int, float, np.integer, np.floating)):
        return float(v)
    if isinstance(v, (list, tuple, np.ndarray)) or type(v).__name__ == "deque":
        return [norm(x) for x in v]
    if isinstance(v, dict):
        return {norm(k): norm(x) for k, x in v.items()}
    if hasattr(v, "links") and hasattr(v, "links_name"):
        return ["route"] + [norm(x) for x in v.links]
    if hasattr(v, "name"):
        return "<%s>" % v.name
    return repr(v)


def close(a, b, tol):
    return a == b or (math.isnan(a) and math.isnan(b)) or (tol > 0 and abs(a - b) <= tol * max(1.0, abs(a), abs(b)))


def diff(a, b, tol=0.0, path=""):
    """None, or a description of the first difference."""
    if isinstance(a, float) and isinstance(b, float):
        return None if close(a, b, tol) else "%s: %r | %r" % (path, a, b)
    if isinstance(a, list) and isinstance(b, list):
        if len(a) != len(b):
            return "%s: lengths %d | %d (%s | %s)" % (path, len(a), len(b), str(a)[:80], str(b)[:80])
        if tol == 0 and a == b:
            return None
        for i, (x, y) in enumerate(zip(a, b)):
            d = diff(x, y, tol, "%s[%d]" % (path, i))
            if d:
                return d
        return None
    if isinstance(a, dict) and isinstance(b, dict):
        if sorted(map(str, a)) != sorted(map(str, b)):
            return "%s: keys %s | %s" % (path, sorted(map(str, a))[:20], sorted(map(str, b))[:20])
        for k in a:
            d = diff(a[k], b[k], tol, "%s[%s]" % (path, k))
            if d:
                return d
        return None
    return None if a == b else "%s: %r | %r" % (path, a, b)


VEH = ["state", "departure_time", "arrival_time", "travel_time", "distance_traveled", "flag_trip_aborted"]
LOGS = ["log_t", "log_state", "log_link", "log_x", "log_v", "log_s", "log_lane"]
STATS = ["trip_all", "trip_completed", "total_travel_time", "average_travel_time", "total_delay", "average_delay", "total_distance_traveled"]


def digest(W, is_cpp, logs=True, upto=None, stats=True):
    """Everything observable. With upto (step count), only what the first `upto` steps determine (records, not current states)."""
    dt = W.DELTAT
    lim = None if upto is None else upto * dt - dt * 1e-6
    out = {"veh": {}, "link": {}, "node": {}, "T": None if upto is not None else W.T}
    for n, v in W.VEHICLES.items():
        d = {}
        if upto is None:
            for a in VEH:
                d[a] = norm(getattr(v, a))
        tl = norm(v.log_t_link)
        if lim is not None:
            tl = [x for x in tl if x[0] < lim or x[1] == "home"]
        d["log_t_link"] = tl
        if logs:
            k = None
            for a in LOGS:
                x = norm(list(getattr(v, a)))
                if lim is not None:
                    if k is None:
                        k = sum(1 for t in x if t < lim)
                    x = x[:k]
                d[a] = x
        out["veh"][n] = d
    for l in W.LINKS:
        c = lambda x: norm(list(x))[:upto]
        d = {"cum_arrival": c(l.cum_arrival), "cum_departure": c(l.cum_departure), "traveltime_instant": c(l.traveltime_instant)}
        if upto is None:
            d["traveltime_actual"] = norm(list(l.traveltime_actual))
            for a in ("u", "kappa", "w", "capacity", "capacity_out", "capacity_in", "capacity_out_remain", "capacity_in_remain", "speed", "num_vehicles", "num_vehicles_queue", "signal_group"):
                d[a] = norm(getattr(l, a))
        out["link"][l.name] = d
    for m in W.NODES:
        d = {"signal_log": norm(list(m.signal_log))[:upto]}
        if upto is None:
            d["phase"] = norm(m.signal_phase)
            d["remain"] = norm(m._cpp_node.flow_capacity_remain if is_cpp else m.flow_capacity_remain)
        out["node"][m.name] = d
    rec = {int(k): v for k, v in W.ROUTECHOICE.dist_record.items()} if W.T > 0 else {}
    out["dist"] = {str(k): norm(v.tolist()) for k, v in rec.items() if upto is None or k < upto}
    if upto is None:
        if not is_cpp:
            out["rng"] = str(W.rng.bit_generator.state)
        if stats and not W.check_simulation_ongoing():
            out["stats"] = {a: norm(getattr(W.analyzer, a)) for a in STATS if hasattr(W.analyzer, a)}
    return out
