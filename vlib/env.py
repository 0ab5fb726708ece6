"""Process set-up: import uxsim from /repo's working tree (never an installed copy),
with the C++ extension built from that tree, the missing font replaced by a stub, and no GUI."""
import os, sys, importlib.util, io, warnings

os.environ.setdefault("MPLBACKEND", "Agg")
os.environ.setdefault("QT_QPA_PLATFORM", "offscreen")
sys.dont_write_bytecode = True
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
HYPO = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"

_ready = False


def add_hypothesis():
    if HYPO not in sys.path:
        sys.path.append(HYPO)


def setup(cpp=False):
    global _ready
    if not _ready:
        sys.meta_path[:] = [f for f in sys.meta_path
                            if "editable" not in (type(f).__module__ or "").lower()
                            and "skbc" not in (type(f).__module__ or "").lower()
                            and "scikit" not in (type(f).__name__ or "").lower()]
        for m in [m for m in sys.modules if m == "uxsim" or m.startswith("uxsim.")]:
            del sys.modules[m]
        if REPO in sys.path:
            sys.path.remove(REPO)
        sys.path.insert(0, REPO)
        warnings.simplefilter("ignore")
        import numpy as np
        np.seterr(all="ignore")
        _stub_font()
    if cpp and "uxsim.uxsim_cpp" not in sys.modules:
        from . import cppbuild
        so = cppbuild.ensure_extension()
        spec = importlib.util.spec_from_file_location("uxsim.uxsim_cpp", so)
        mod = importlib.util.module_from_spec(spec)
        import uxsim
        sys.modules["uxsim.uxsim_cpp"] = mod
        spec.loader.exec_module(mod)
        uxsim.uxsim_cpp = mod
    import uxsim
    assert os.path.abspath(uxsim.__file__).startswith(os.path.abspath(REPO)), uxsim.__file__
    if not _ready:
        _patch_analyzer_font()
    _ready = True
    return uxsim


def _stub_font():
    """uxsim/files/HackGen-Regular.ttf is not in this checkout; a bundled font is used instead
    for every attempt to open it, so that scenarios can be finalised."""
    font = os.path.join(REPO, "uxsim", "files", "HackGen-Regular.ttf")
    if os.path.exists(font):
        return
    sub = os.path.join(REPO, "uxsim", "files", "Inconsolata.otf")
    import builtins
    real_open = io.open

    def patched_open(file, *a, **k):
        if isinstance(file, (str, os.PathLike)) and os.fspath(file).__class__ is str and os.fspath(file).endswith("HackGen-Regular.ttf"):
            file = sub
        return real_open(file, *a, **k)
    builtins.open = patched_open
    io.open = patched_open
    try:
        import importlib.resources as ir
        real_rb = ir.read_binary
    except Exception:
        pass


def _patch_analyzer_font():
    font = os.path.join(REPO, "uxsim", "files", "HackGen-Regular.ttf")
    if os.path.exists(font):
        return
    import uxsim.analyzer as an
    import uxsim.utils as ut
    sub = os.path.join(REPO, "uxsim", "files", "Inconsolata.otf")
    with open(sub, "rb") as f:
        data = f.read()
    for mod in (an, ut, sys.modules.get("uxsim.uxsim"), sys.modules.get("uxsim.uxsim_cpp_wrapper")):
        if mod is None:
            continue
        if hasattr(mod, "load_font_data"):
            mod.load_font_data = lambda *a, **k: data
        if hasattr(mod, "get_font_for_matplotlib"):
            mod.get_font_for_matplotlib = lambda *a, **k: "DejaVu Sans"
