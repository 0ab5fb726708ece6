"""C10: any sequence of partial executions against one uninterrupted execution."""
from vlib.core import Part, Info, fail, Skip
from vlib import scen
from vlib.digest import digest, diff

CPP = True
RULE = ("random scenarios (all topologies and options, random and deterministic) run in one go and in a random sequence of partial executions (until_t, duration_t, duration_t2, no argument, "
        "combinations, requests of no duration or into the past, calls after the end); non-trivial: at least three pieces while vehicles were on the road")
BUDGET = {"quick": 200, "thorough": 3000}


def make(cpp):
    def check(case):
        from vlib import env
        ux = env.setup(cpp=cpp)
        spec = case["spec"]
        A = scen.build(ux, spec, cpp=cpp)
        B = scen.build(ux, spec, cpp=cpp)
        scen.finalize(A)
        if case["fin"]:
            scen.finalize(B)
        r = A.exec_simulation()
        dt, N = A.DELTAT, A.TSIZE
        if N == 0:
            raise Skip("no step")
        if N != int(spec["W"]["tmax"] / dt):
            fail("%d steps for tmax %s and step %s" % (N, spec["W"]["tmax"], dt), "tsize")
        if r != 1 or A.T != N or A.check_simulation_ongoing():
            fail("after exec_simulation(): returned %s, T=%s of %d, ongoing %s" % (r, A.T, N, A.check_simulation_ongoing()), "end")
        T, k, busy, hist = 0, 0, 0, []
        while T < N:
            p = case["pieces"][k % len(case["pieces"])] if k < 200 else {"k": "none", "n": 0, "f": 0}
            k += 1
            n, f = p["n"], p["f"]
            if p["k"] == "none":
                kw, want = {}, N
            elif p["k"] == "until":
                kw, want = {"until_t": (T + n + f) * dt}, T + n + 1
            elif p["k"] == "dur":
                kw, want = {"duration_t": (n + f) * dt}, T + n + 1
            elif p["k"] == "dur2":
                kw, want = {"duration_t2": (n + 1 + f) * dt}, T + n + 1
            elif p["k"] == "both":      # the more specific argument wins
                kw, want = {"until_t": (T + n + f) * dt, "duration_t2": 2 * dt, "duration_t": 5 * dt}, T + n + 1
            elif p["k"] == "both2":
                kw, want = {"duration_t2": (n + 1 + f) * dt, "duration_t": 7 * dt}, T + n + 1
            elif p["k"] == "past":
                if T == 0:
                    continue
                kw, want = {"until_t": max(0, T - 1 - n) * dt}, None
            else:   # "short": a duration of less than a step
                kw, want = {"duration_t2": f * dt * 0.99}, None
            hist.append(kw)
            if want is None:
                try:
                    B.exec_simulation(**kw)
                except Exception:
                    pass
                if B.finalized and B.T != T:
                    fail("T=%d: exec_simulation(%s) asks for nothing but the clock is at %s" % (T, kw, B.T), "nothing")
                continue
            ret = B.exec_simulation(**kw)
            want = min(want, N)
            if B.T != want:
                fail("T=%d of %d: exec_simulation(%s) stopped at T=%s, not %d" % (T, N, kw, B.T, want), "stop")
            if B.TIME != want * dt:
                fail("T=%d: TIME is %s, step is %s" % (B.T, B.TIME, dt), "time")
            if ret != (1 if want == N else 0):
                fail("T=%d of %d: exec_simulation(%s) returned %s" % (want, N, kw, ret), "return")
            if bool(B.check_simulation_ongoing()) != (want < N):
                fail("T=%d of %d: check_simulation_ongoing() is %s" % (want, N, B.check_simulation_ongoing()), "ongoing")
            T = want
            if T < N and any(v.state == "run" for v in B.VEHICLES.values()):
                busy += 1
        a, b = digest(A, cpp), digest(B, cpp)
        d = diff(a, b)
        if d:
            fail("one go | pieces %s: %s" % (hist[:12], d), "differ")
        for p in case["after"]:
            kw = {"none": {}, "dur": {"duration_t": dt * 3}, "dur2": {"duration_t2": dt * 2}, "until": {"until_t": (N + 4) * dt}}[p]
            r = B.exec_simulation(**kw)
            if r != 1 or B.T != N or B.check_simulation_ongoing():
                fail("terminated simulation executed again with %s: returned %s, T=%s of %d" % (kw, r, B.T, N), "after")
        if case["after"]:
            d = diff(a, digest(B, cpp))
            if d:
                fail("before | after executing a terminated simulation again: " + d, "after")
        return Info(busy >= 3, sorted({p["k"] for p in case["pieces"]}))
    return check


def strat(**opt):
    def s():
        from hypothesis import strategies as st
        piece = st.fixed_dictionaries({"k": st.sampled_from(["until", "dur", "dur2", "dur2", "both", "both2", "past", "short", "none"]),
                                       "n": st.sampled_from([0, 1, 2, 5, 11, 0, 3]), "f": st.sampled_from([0, 0, 0.5, 0.25])})

        @st.composite
        def gen(draw):
            spec = draw(scen.scenario_strategy(**opt))
            ps = draw(st.lists(piece, min_size=1, max_size=6))
            if all(p["k"] in ("past", "short") for p in ps):
                ps.append({"k": "dur2", "n": 2, "f": 0})
            return {"spec": spec, "pieces": ps, "fin": draw(st.booleans()),
                    "after": draw(st.lists(st.sampled_from(["none", "dur", "dur2", "until"]), max_size=2))}
        return gen()
    return s


OPT = dict(zero_caps=True, wild_offset=True, max_steps=70, max_platoons=40)
PARTS = [
    Part("python", strat(**OPT), make(False), 550, 20000),
    Part("cpp", strat(**OPT), make(True), 1400, 60000, engine="cpp"),
]
