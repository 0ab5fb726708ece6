"""One shard of one check: python -m vlib.worker PROP TIER SEED SHARD NSHARDS OUTDIR DEADLINE"""
import sys, os, json, time, signal, traceback, importlib

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def load_check(prop, need_engine=True):
    from vlib import env
    env.add_hypothesis()
    mod = importlib.import_module("checks." + prop.lower())
    if need_engine and getattr(mod, "NEED_UXSIM", True):
        env.setup(cpp=getattr(mod, "CPP", False))
    return mod


def in_repo_traceback(e):
    from vlib import env
    root = os.path.abspath(env.REPO) + os.sep
    tb = e.__traceback__
    while tb is not None:
        if os.path.abspath(tb.tb_frame.f_code.co_filename).startswith(root):
            return True
        tb = tb.tb_next
    # errors raised by the compiled engine carry no frame of their own
    return isinstance(e, (RuntimeError, IndexError)) and getattr(e, "_from_cpp", False)


def run_case(part, case):
    """Return (status, info, message, key); status in ok/skip/violation/error."""
    from vlib.core import Violation, Skip, Info, CaseTimeout
    try:
        info = part.check(case)
        return "ok", info or Info(), None, None
    except Skip as e:
        return "skip", None, str(e), None
    except Violation as e:
        return "violation", None, str(e), e.key
    except CaseTimeout:
        raise
    except Exception as e:
        txt = traceback.format_exc()
        if in_repo_traceback(e):
            return "violation", None, "unexpected exception from the code under test: %s: %s\n%s" % (
                type(e).__name__, e, "\n".join(txt.splitlines()[-14:])), "exc:" + type(e).__name__
        return "error", None, txt, None


def main():
    prop, tier, seed, shard, nshards, outdir, deadline = sys.argv[1:8]
    seed, shard, nshards, deadline = int(seed), int(shard), int(nshards), float(deadline)
    only = os.environ.get("VERIF_PART")
    from vlib.core import canon, case_hash, derive_seed, Violation, CaseTimeout
    mod = load_check(prop)
    import hypothesis
    from hypothesis import settings, HealthCheck, Phase, given
    import hypothesis.internal.conjecture.engine as eng
    eng.MAX_SHRINKING_SECONDS = 45 if tier == "quick" else 120
    from vlib.main import known_keys
    known = known_keys(prop)
    out = {"evaluations": 0, "nontrivial": [], "samples": [], "tags": {}, "skips": 0, "timeouts": 0,
           "budget_stop": 0, "timeout_cases": [], "known_hits": {}, "violations": [], "errors": [], "parts": {}}
    curfile = os.path.join(outdir, "cur_%d.json" % shard)
    seen = set()

    def on_alarm(sig, frm):
        raise CaseTimeout()
    signal.signal(signal.SIGALRM, on_alarm)
    case_limit = 100

    for pi, part in enumerate(mod.PARTS):
        if only and part.name != only:
            continue
        total = part.quick if tier == "quick" else part.thorough
        n = total // nshards + (1 if shard < total % nshards else 0)
        if n == 0 or out["errors"]:
            continue
        st = {"n": 0, "nontrivial": 0, "skip": 0, "t0": time.time()}
        fails = []

        def body0(case, part=part, st=st, fails=fails):
            if time.time() > deadline and not fails:
                out["budget_stop"] += 1
                return
            with open(curfile, "w") as f:
                json.dump({"part": part.name, "case": case}, f)
            signal.alarm(case_limit)
            try:
                status, info, msg, key = run_case(part, case)
            except CaseTimeout:
                out["timeouts"] += 1
                out["timeout_cases"].append({"part": part.name, "case": case})
                return
            finally:
                signal.alarm(0)
            st["n"] += 1
            out["evaluations"] += 1
            if status == "skip":
                st["skip"] += 1
                out["skips"] += 1
                return
            if status == "error":
                out["errors"].append({"part": part.name, "case": case, "trace": msg})
                raise KeyboardInterrupt("harness error")
            if status == "violation":
                if key is not None and key in known:
                    out["known_hits"][key] = out["known_hits"].get(key, 0) + 1
                    return
                fails.append({"part": part.name, "case": case, "message": msg, "key": key})
                raise Violation(msg, key)
            if fails:
                return
            for t in info.tags:
                k = part.name + ":" + t
                out["tags"][k] = out["tags"].get(k, 0) + 1
            if info.nontrivial:
                h = case_hash([part.name, case])
                st["nontrivial"] += 1
                if h not in seen:
                    seen.add(h)
                    out["nontrivial"].append(h)
                    if len(canon(case)) < 6000 and sum(1 for s in out["samples"] if s["part"] == part.name) < 2:
                        out["samples"].append({"part": part.name, "case": case})

        def mk(b):
            def body(case):
                b(case)
            return body
        body = mk(body0)

        # regression examples of the part first (shard 0 only)
        try:
            if shard == 0:
                for ex in part.examples:
                    body(ex)
            phases = [Phase.generate] + ([Phase.shrink] if part.shrink else [])
            test = given(part.strategy())(body)
            test = settings(max_examples=n, database=None, deadline=None, phases=phases, print_blob=False,
                            suppress_health_check=list(HealthCheck), report_multiple_bugs=False,
                            verbosity=hypothesis.Verbosity.quiet)(test)
            test = hypothesis.seed(derive_seed(seed, prop, part.name, shard))(test)
            test()
        except Violation:
            pass
        except CaseTimeout:
            out["timeouts"] += 1
        except BaseException as e:
            if not fails and not out["errors"]:
                out["errors"].append({"part": part.name, "case": None, "trace": traceback.format_exc()})
        if fails:
            best = fails[-1]
            best["n_failing_seen"] = len(fails)
            out["violations"].append(best)
        st["wall"] = time.time() - st.pop("t0")
        out["parts"][part.name] = st
    tmp = os.path.join(outdir, "res_%d.tmp" % shard)
    with open(tmp, "w") as f:
        json.dump(out, f)
    os.rename(tmp, os.path.join(outdir, "res_%d.json" % shard))
    sys.stdout.flush()
    os._exit(0)


if __name__ == "__main__":
    main()
