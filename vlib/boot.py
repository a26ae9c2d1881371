"""Locate the code under test and the offline-installed test dependencies."""
import os, sys, glob, zipfile, tempfile, shutil

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
DEPS = os.path.join(HERE, ".deps")
WHEELS = "/opt/veriftools/wheels"


def ensure_deps():
    try:
        import hypothesis  # noqa
        return
    except ImportError:
        pass
    if not os.path.isdir(os.path.join(DEPS, "hypothesis")):
        pats = ["hypothesis-*-cp%d%d-*manylinux*.whl" % sys.version_info[:2],
                "sortedcontainers-*.whl", "attrs-*.whl"]
        tmp = tempfile.mkdtemp(prefix=".deps-", dir=HERE)
        ok = True
        for p in pats:
            hits = sorted(glob.glob(os.path.join(WHEELS, p)))
            if not hits:
                ok = False
                break
            with zipfile.ZipFile(hits[-1]) as z:
                z.extractall(tmp)
        if ok:
            try:
                os.rename(tmp, DEPS)
            except OSError:          # somebody else won the race
                shutil.rmtree(tmp, ignore_errors=True)
        else:
            shutil.rmtree(tmp, ignore_errors=True)
    if os.path.isdir(os.path.join(DEPS, "hypothesis")):
        sys.path.append(DEPS)
    else:
        for d in glob.glob("/opt/veriftools/pyvenv/lib/python3.*/site-packages"):
            sys.path.append(d)
    import hypothesis  # noqa


def setup():
    p = os.path.join(REPO, "py")
    if p in sys.path:
        sys.path.remove(p)
    sys.path.insert(0, p)
    ensure_deps()
    import redrock
    got = os.path.dirname(os.path.abspath(redrock.__file__))
    if not got.startswith(os.path.abspath(REPO) + os.sep):
        raise RuntimeError("redrock imported from %s, not %s" % (got, REPO))
