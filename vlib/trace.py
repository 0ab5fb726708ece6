"""Histories of vehicles and links reconstructed from step-by-step observation (see scen.run_traced)."""
from vlib.core import fail


class Visit:
    """One stay of a vehicle on a link."""
    __slots__ = ("veh", "link", "tin", "tout", "how", "exit", "prev", "next", "lane")

    def __init__(s, veh, link, tin, prev):
        s.veh, s.link, s.tin, s.prev = veh, link, tin, prev
        s.tout = s.exit = s.next = s.lane = None


def link_entries(v, dt):
    """[(step, link name)] from the vehicle's own passage record."""
    out = []
    for t, l in v.log_t_link:
        if isinstance(l, (str, int)):
            continue
        out.append((int(round(t / dt)), l.name))
    return out


def visits(W, tr):
    """{veh: [Visit]}: when each vehicle was on which link; exits in steps; cross-checked with the snapshots."""
    dt = W.DELTAT
    out = {}
    end_at = {}
    for s in tr:
        for n, v in s.vehs.items():
            if v[0] in ("end", "abort") and n not in end_at:
                end_at[n] = (s.T, v[0])
    for n, v in W.VEHICLES.items():
        ents = link_entries(v, dt)
        vs = []
        for i, (T, l) in enumerate(ents):
            vis = Visit(n, l, T, vs[-1].link if vs else None)
            if vs:
                vs[-1].tout, vs[-1].exit, vs[-1].next = T, "transfer", l
            vs.append(vis)
        if n in end_at:
            if vs:
                vs[-1].tout, vs[-1].exit = end_at[n]
        out[n] = vs
        # the record must agree with what was seen after each step
        k = -1
        for s in tr:
            while k + 1 < len(vs) and vs[k + 1].tin <= s.T:
                k += 1
            st = s.vehs.get(n)
            seen = st[1] if st else None
            want = vs[k].link if k >= 0 and not (n in end_at and s.T >= end_at[n][0]) else None
            if seen != want:
                fail("T=%d: vehicle %s is on link %s, its passage record says %s" % (s.T, n, seen, want))
            if st and st[1] is not None:
                vs[k].lane = st[4]
    return out
