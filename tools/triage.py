"""Development aid: run a part over N random cases, group failures by message shape. usage: triage.py C12 run 300 [seed]"""
import sys, os, re, random, traceback, importlib, json, collections
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import env, core
env.add_hypothesis()


def main():
    cid, pname, n = sys.argv[1:4]
    seed = int(sys.argv[4]) if len(sys.argv) > 4 else 0
    m = importlib.import_module("checks." + cid.lower())
    env.setup(cpp=getattr(m, "CPP", False))
    import hypothesis
    from hypothesis import given, settings, HealthCheck, Phase
    part = next(p for p in m.PARTS if p.name == pname)
    groups = collections.OrderedDict()
    cnt = [0, 0]

    @hypothesis.seed(seed)
    @settings(max_examples=int(n), database=None, deadline=None, phases=[Phase.generate], suppress_health_check=list(HealthCheck))
    @given(part.strategy())
    def go(case):
        cnt[0] += 1
        try:
            info = part.check(case)
            cnt[1] += bool(info.nontrivial)
            return
        except core.Skip:
            return
        except core.Violation as e:
            k, msg = str(e.key), str(e)
        except Exception as e:
            tb = traceback.extract_tb(e.__traceback__)[-1]
            k, msg = "EXC %s %s:%s" % (type(e).__name__, os.path.basename(tb.filename), tb.lineno), str(e)[:300]
        shape = k if k != "None" else re.sub(r"[-\d.e]+", "#", msg)[:90]
        g = groups.setdefault(shape, [0, None, None, 10**9])
        g[0] += 1
        s = len(json.dumps(case))
        if s < g[3]:
            g[1], g[2], g[3] = msg, case, s
    go()
    print("%d cases, %d nontrivial, %d failing" % (cnt[0], cnt[1], sum(g[0] for g in groups.values())))
    for i, (k, g) in enumerate(sorted(groups.items(), key=lambda x: -x[1][0])):
        f = "/tmp/w/tri_%s_%s_%d.json" % (cid, pname, i)
        json.dump({"property": cid, "part": pname, "case": g[2]}, open(f, "w"))
        print("%5d  %s\n       %s\n       %s" % (g[0], k, g[1][:500], f))


main()
