"""Build the C++ engine's Python extension from /repo's current working tree.

The output goes to /verif/.build/<hash of every source file>/ (git-ignored), so a
changed tree always gets its own binary and an unchanged one is built only once.
"""
import fcntl, glob, hashlib, os, shutil, subprocess, sys, sysconfig, tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SRC = os.path.join(REPO, "uxsim", "trafficpp")
BUILD_ROOT = os.path.join(VERIF, ".build")
NB = None


class BuildError(Exception):
    pass


def _nb():
    global NB
    if NB is None:
        for base in sys.path + ["/opt/venv/lib/python3.12/site-packages"]:
            p = os.path.join(base, "nanobind")
            if os.path.isdir(os.path.join(p, "src")):
                NB = p
                break
        else:
            raise BuildError("nanobind not found")
    return NB


def _sources():
    out = []
    for pat in ("*.cpp", "*.h", "*.hpp", "*.cc", "*.inl"):
        out += glob.glob(os.path.join(SRC, "**", pat), recursive=True)
    return sorted(out)


def source_hash(extra=""):
    h = hashlib.sha256(extra.encode())
    for p in _sources():
        h.update(os.path.relpath(p, SRC).encode())
        with open(p, "rb") as f:
            h.update(f.read())
    return h.hexdigest()[:20]


def _run(cmd):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise BuildError("command failed: %s\n%s" % (" ".join(cmd), r.stdout[-4000:]))


class _lock:
    def __init__(self, name):
        os.makedirs(BUILD_ROOT, exist_ok=True)
        self.f = open(os.path.join(BUILD_ROOT, name + ".lock"), "w")

    def __enter__(self):
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        fcntl.flock(self.f, fcntl.LOCK_UN)
        self.f.close()


SAN = ["-g1", "-fsanitize=address,undefined,float-cast-overflow", "-fno-sanitize=vptr", "-fno-sanitize-recover=all", "-D_GLIBCXX_ASSERTIONS", "-fno-omit-frame-pointer"]


def ensure_extension(san=None):
    """Return the path of a freshly built uxsim_cpp extension of the current tree (with sanitizers if asked; also with VERIF_SAN=1)."""
    if san is None:
        san = os.environ.get("VERIF_SAN") == "1"
    ext = sysconfig.get_config_var("EXT_SUFFIX")
    key = source_hash("ext-v2" + sys.version + ("san" + " ".join(SAN) if san else ""))
    d = os.path.join(BUILD_ROOT, key)
    so = os.path.join(d, "uxsim_cpp" + ext)
    if os.path.exists(so):
        return so
    with _lock(key):
        if os.path.exists(so):
            return so
        nb = _nb()
        tmp = tempfile.mkdtemp(prefix="b_", dir=BUILD_ROOT)
        try:
            inc = ["-I", os.path.join(nb, "include"), "-I", os.path.join(nb, "ext", "robin_map", "include"),
                   "-I", sysconfig.get_paths()["include"]]
            common = ["g++", "-std=gnu++17", "-fPIC", "-fvisibility=hidden", "-fno-strict-aliasing",
                      "-w"] + (SAN if san else ["-fno-stack-protector", "-DNDEBUG"])
            nbo = os.path.join(BUILD_ROOT, "nb_combined.o")
            jobs = []
            ext_o = os.path.join(tmp, "bindings.o")
            jobs.append(subprocess.Popen(common + ["-O1", "-fopenmp"] + inc + ["-c", os.path.join(SRC, "bindings.cpp"), "-o", ext_o],
                                         stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True))
            nb_o = os.path.join(tmp, "nb.o")
            jobs.append(subprocess.Popen(common + ["-O1"] + inc + ["-c", os.path.join(nb, "src", "nb_combined.cpp"), "-o", nb_o],
                                         stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True))
            outs = [j.communicate()[0] for j in jobs]
            for j, o in zip(jobs, outs):
                if j.returncode != 0:
                    raise BuildError("compilation failed\n" + (o or "")[-4000:])
            tmpso = os.path.join(tmp, "x.so")
            _run(["g++", "-shared", "-fopenmp"] + (["-fsanitize=address,undefined"] if san else []) + [ext_o, nb_o, "-o", tmpso, "-lpthread"])
            os.makedirs(d, exist_ok=True)
            os.rename(tmpso, so)
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
    return so


def ensure_binary(name, main_cpp, flags):
    """Build a standalone program from a harness source that #includes traffi.cpp."""
    with open(main_cpp, "rb") as f:
        key = source_hash("bin-" + name + " ".join(flags) + hashlib.sha256(f.read()).hexdigest())
    d = os.path.join(BUILD_ROOT, key)
    exe = os.path.join(d, name)
    if os.path.exists(exe):
        return exe
    with _lock(key):
        if os.path.exists(exe):
            return exe
        os.makedirs(d, exist_ok=True)
        tmp = exe + ".tmp%d" % os.getpid()
        _run(["g++", "-std=gnu++17", "-w", "-I", SRC] + flags + [main_cpp, "-o", tmp])
        os.rename(tmp, exe)
    return exe


if __name__ == "__main__":
    print(ensure_extension())
