"""Make `hypothesis` importable offline, from the wheels of the sandbox."""
import glob
import importlib
import os
import sys
import tempfile
import zipfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WHEELS = "/opt/veriftools/wheels"
PATTERNS = ("hypothesis-*-cp312-*.whl", "sortedcontainers-*.whl")


def _extract(dest):
    for pat in PATTERNS:
        found = sorted(glob.glob(os.path.join(WHEELS, pat)))
        if not found:
            raise RuntimeError("no wheel %s in %s" % (pat, WHEELS))
        with zipfile.ZipFile(found[-1]) as z:
            z.extractall(dest)


def ensure(install=False):
    """Put hypothesis on sys.path; returns where it comes from."""
    deps = os.path.join(HERE, ".deps")
    if install and not os.path.isdir(os.path.join(deps, "hypothesis")):
        os.makedirs(deps, exist_ok=True)
        _extract(deps)
    if os.path.isdir(os.path.join(deps, "hypothesis")):
        where = deps
    else:
        try:
            import hypothesis  # noqa: F401  (already importable)
            return os.path.dirname(hypothesis.__file__)
        except ImportError:
            pass
        where = tempfile.mkdtemp(prefix="vpdeps-")
        import atexit
        import shutil
        pid = os.getpid()

        def _clean():
            if os.getpid() == pid:
                shutil.rmtree(where, ignore_errors=True)
        atexit.register(_clean)
        _extract(where)
    if where not in sys.path:
        sys.path.insert(0, where)
    importlib.invalidate_caches()
    return where
