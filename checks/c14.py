"""C14: random call sequences on the C++ engine built with AddressSanitizer and UndefinedBehaviorSanitizer, and the same calls with the plain build under other memory contents."""
import os, sys, json, re, subprocess, select, time
from vlib.core import Part, Info, fail, Skip
from vlib import scen
from checks.c14_ops import ODD_LINK, ODD_NODE, ODD_WORLD

CPP = True
PREPARE = "c14_build"
NEED_UXSIM = False
RULE = ("random scenarios, some with odd attribute values, and random sequences of calls before, during and after the run (times far outside the period, not finite, odd routes, changed parameters, batch operations, queries, use after the end of the world), "
        "in a process with the engine built with address, undefined-behaviour, float-conversion and library-assertion checks; non-trivial: the world ran and at least ten calls were made")
BUDGET = {"quick": 250, "thorough": 4000}
ASSUMPTIONS = ["memory is only ever reached through the Python classes and the engine's batch operations", "the release build is compared with the checked build, too: values read from uninitialised memory differ"]

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Child:
    """A process that runs cases one after another; a crash ends it, a new one takes over."""
    def __init__(self, san):
        self.san, self.p = san, None

    def start(self):
        env = dict(os.environ)
        env.pop("VERIF_SAN", None)
        env.update({"PYTHONMALLOC": "malloc", "OMP_NUM_THREADS": "2", "OMP_WAIT_POLICY": "PASSIVE"})
        if self.san:
            libs = [subprocess.run(["g++", "-print-file-name=" + n], stdout=subprocess.PIPE, text=True).stdout.strip() for n in ("libasan.so", "libstdc++.so.6")]
            env.update({"VERIF_SAN": "1", "LD_PRELOAD": " ".join(map(os.path.realpath, libs)), "UBSAN_OPTIONS": "print_stacktrace=1",
                        "ASAN_OPTIONS": "detect_leaks=0:allocator_may_return_null=1:max_allocation_size_mb=2000:quarantine_size_mb=64:malloc_context_size=12:max_malloc_fill_size=100000000:malloc_fill_byte=190:detect_stack_use_after_return=1:handle_abort=1:detect_container_overflow=1"})
        else:
            env["MALLOC_PERTURB_"] = "90"
        d = os.environ.get("VERIF_SCRATCH", "/tmp")
        self.errf = os.path.join(d, "child_%d_%d.err" % (self.san, os.getpid()))
        self.p = subprocess.Popen([sys.executable, "-m", "checks.c14_ops"], cwd=VERIF, env=env, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=open(self.errf, "w"), text=True, bufsize=1)
        if self.read(120) != "ready":
            raise RuntimeError("child did not start: " + open(self.errf).read()[-2000:])

    def read(self, limit):
        r, _, _ = select.select([self.p.stdout], [], [], limit)
        if not r:
            return None
        return self.p.stdout.readline().strip()

    def run(self, case, limit=6):
        """(answer, None), (None, error text of a crash) or (None, None) if it takes too long."""
        if self.p is None or self.p.poll() is not None:
            self.start()
        self.p.stdin.write(json.dumps(case) + "\n")
        self.p.stdin.flush()
        a = self.read(limit)
        if a is None:
            self.stop()
            return None, None
        if a == "":
            self.p.wait()
            rc = self.p.returncode
            txt = open(self.errf, errors="replace").read()
            self.p = None
            return None, "exit status %s\n%s" % (rc, txt)
        return json.loads(a), None

    def stop(self):
        if self.p is not None:
            self.p.kill()
            self.p.wait()
            self.p = None


children = {}


def child(san):
    if san not in children:
        children[san] = Child(san)
    return children[san]


def summary(txt):
    """The lines of a sanitizer report that matter."""
    ls = [l for l in txt.splitlines() if re.search(r"ERROR: |runtime error|SUMMARY|Assertion|assertion|trafficpp|exit status|terminate", l)]
    return "\n".join(ls[:14]) or txt[-600:]


def where(txt):
    m = re.search(r"(traffi|dta_solver|bindings|utils)\.(cpp|h):(\d+)", txt)
    k = re.search(r"runtime error: ([a-z\- ]+)|AddressSanitizer: ([a-zA-Z\-]+)|(Assertion)|(exit status -?\d+)", txt)
    return "%s:%s" % ((k.group(0)[:40] if k else "crash"), m.group(0) if m else "?")


def check(case):
    a, err = child(1).run(case)
    if err is not None:
        fail("the checked engine stopped:\n" + summary(err), where(err))
    if a is None:
        raise Skip("slow")
    if case["plain"]:
        b, err = child(0).run(case)
        if err is not None:
            fail("the plain engine crashed:\n" + summary(err), "plain crash")
        if b is not None and a["digest"] != b["digest"]:
            full = dict(case, full=1)
            a, b = child(1).run(full)[0], child(0).run(full)[0]
            for x, y in zip(a["log"], b["log"]):
                if x != y:
                    fail("with other contents of uninitialised memory, %s differs: %s | %s" % (x[0], str(x[1])[:300], str(y[1])[:300]), "uninitialised")
    log = a["log"]
    tags = {x[0].split(" ")[0] for x in log}
    errs = sum(1 for x in log if x[1] != "ok")
    if errs:
        tags.add("with errors")
    return Info(len(log) >= 14 and ["digest", "ok"] in log, tags)


BEFORE = ["capacity", "node capacity", "speed", "jam", "penalty", "signal", "route", "prefer", "avoid", "link now", "link times", "vehicle logs", "vehicle state", "lookup", "tmax", "add vehicle", "add demand", "k routes", "logs",
          "externality", "routechoice", "print", "threads", "toll", "signal raw", "keep", "store", "defroute", "log off", "options"]
DURING = ["run", "run", "run", "run", "run until", "link times", "link now", "capacity", "node capacity", "speed", "jam", "penalty", "priority", "signal", "signal raw", "vehicle state", "vehicle logs", "route", "prefer", "avoid",
          "raw vehicle", "add vehicle", "add vehicle now", "add demand", "add node", "add link", "route search", "routechoice", "defroute", "k routes", "store", "make store", "due", "dso", "batch", "batch csr", "raw csr",
          "externality", "toll", "logs", "analyse", "print", "lookup", "threads", "keep", "options", "adjust", "finalize", "log off"]
AFTER = ["link times", "link now", "vehicle state", "vehicle logs", "routechoice", "defroute", "k routes", "store", "make store", "due", "dso", "externality", "logs", "analyse", "lookup", "run", "add vehicle now", "add node",
         "add link", "route", "batch", "keep", "route search", "speed", "jam", "run until", "print"]
XS = [0, 1, 0.5, 5, 10, 33.3, 100, 1000, -1, -5, 1e6, 1e9, 3e9, 1e300, "inf", "-inf", "nan", 0.1, 20, -0.0, 1e-9]


def strategy(odd, **opt):
    st = scen.strategies()
    one = lambda names: st.fixed_dictionaries({"f": st.sampled_from(names), "i": st.integers(0, 11), "j": st.integers(0, 40), "n": st.integers(0, 9), "x": st.sampled_from(XS), "y": st.sampled_from(XS)})
    big = [0, 1, -1, 3, 100, 1e6, 1e-9, 0.5, "inf", "nan", -3, 1e300, 2 ** 31]
    oddv = st.sampled_from(["L", "N", "W", "D", "V"]).flatmap(lambda k: st.tuples(st.just(k), st.sampled_from({"L": ODD_LINK, "N": ODD_NODE, "W": ODD_WORLD, "D": ["t_start", "t_end", "flow", "volume"], "V": ["t"]}[k]),
                                                                               st.integers(0, 20), st.sampled_from(big))).map(list)

    def fix(o):
        k, f, i, x = o
        if f == "signal":
            if isinstance(x, str) or abs(x) > 1e6:
                x = 7       # a phase that never ends, or a cycle without length, has no phase to start in
            x = [x] if i % 3 == 0 else [x, 5] if i % 3 == 1 else [5, 10, x]
        if f == "signal_group":
            x = [int(x) if isinstance(x, (int, float)) and abs(x) < 1e5 else 7]
        if k == "W" and f in ("deltan", "reaction_time") and (isinstance(x, str) or x < 0.1):
            x = 0.5     # the number of time steps stays small
        if k == "W" and f == "tmax" and not isinstance(x, str) and x > 1e5:
            x = 0.25
        if k == "W" and f == "tmax" and isinstance(x, str):
            x = 1
        if k == "W" and f == "threads":
            x = 2
        if k == "D" and f in ("flow", "volume", "t_end") and (isinstance(x, str) or x > 1e4):
            x = 50
        if k == "D" and f == "t_start" and (isinstance(x, str) or x < -100):
            x = -5
        return [k, f, i, x]
    opt = dict({"max_steps": 60, "max_platoons": 40, "zero_caps": True, "wild_offset": True}, **opt)
    return st.fixed_dictionaries({"spec": scen.scenario_strategy(**opt), "odd": st.lists(oddv.map(fix), max_size=3 if odd else 0, min_size=1 if odd else 0),
                                  "before": st.lists(one(BEFORE), max_size=4), "calls": st.lists(one(DURING), min_size=4, max_size=25), "after": st.lists(one(AFTER), max_size=12),
                                  "end": st.booleans(), "drop": st.booleans(), "plain": st.sampled_from([1, 0, 0])})


PARTS = [
    Part("calls", lambda: strategy(False), check, 700, 12000, engine="cpp"),
    Part("odd values", lambda: strategy(True), check, 260, 8000, engine="cpp"),
]
