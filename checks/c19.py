"""C19: output files appear complete or not at all."""
import os, sys, tempfile, signal, resource, shutil
import numpy as np
from hypothesis import strategies as st
from vlib.core import Facet, require, fail
from vlib import procs

ASSUMPTIONS = ["faults are a full disk (file size limit, as error or as killing signal), bad data, and death just before or after the file is renamed; "
               "loss of the machine (unsynced data) is not covered", "write_zscan with clobber=True may delete the old file first, as documented"]
WRITERS = ["zscan", "zscan", "zbest", "boss", "model"]


@st.composite
def cases(draw):
    return dict(w=draw(st.sampled_from(WRITERS)), nt=draw(st.integers(1, 12)), ntype=draw(st.integers(1, 3)), nz=draw(st.integers(1, 200)), npix=draw(st.integers(1, 400)),
                seed=draw(st.integers(0, 2**31)), old=draw(st.sampled_from(["none", "complete", "complete", "junk"])), clobber=draw(st.booleans()),
                fault=draw(st.sampled_from(["limit-kill", "limit-kill", "limit-error", "limit-error", "data", "before rename", "after rename", "none"])),
                frac=draw(st.floats(0, 1.0625, width=16)), newdir=draw(st.integers(0, 3)) == 0, stale=draw(st.booleans()), env=draw(st.booleans()))


class FakeT:
    def __init__(self, ft, v):
        self.full_type, self.version, self.filename, self.template_type = ft, v, "/x/rrtemplate-%s.fits" % ft, ft


def payload(case, seed, bad=False):
    """Function writing new contents to a path."""
    from astropy.table import Table
    g = np.random.default_rng(seed)
    nt, w = case["nt"], case["w"]
    ids = (g.permutation(10**3 + nt)[:nt] + 39627700000000000).astype("i8")
    types = ["GALAXY", "QSO:::HIZ", "STAR"][:case["ntype"]]
    t = Table()
    k = 2 if w == "zscan" else 1
    t["targetid"] = np.repeat(ids, k)
    for c in ("chi2", "z", "zerr", "deltachi2"):
        t[c] = g.normal(size=nt * k)
    t["zwarn"] = np.zeros(nt * k, "i8")
    t["npixels"] = g.integers(0, 99, nt * k)
    t["spectype"] = ["GALAXY"] * (nt * k)
    t["subtype"] = [""] * (nt * k)
    t["fitmethod"] = ["PCA"] * (nt * k)
    t["ncoeff"] = np.full(nt * k, 3)
    t["coeff"] = g.normal(size=(nt * k, 3))
    if w == "zscan":
        from redrock.results import write_zscan
        t["znum"] = np.tile([0, 1], nt)
        t["zz"], t["zzchi2"] = g.normal(size=(nt * k, 5)), g.normal(size=(nt * k, 5))
        scan = {i: {ft: dict(zchi2=g.normal(size=case["nz"]), penalty=g.normal(size=case["nz"]), zcoeff=g.normal(size=(case["nz"], 3)),
                             redshifts=np.linspace(0, 1, case["nz"])) for ft in types} for i in ids}
        if bad:
            del scan[ids[-1]][types[-1]]["zcoeff"]
        return lambda path: write_zscan(path, scan, t, clobber=case["clobber"])
    temps = [FakeT(ft.replace(":::", "-"), "1.0") for ft in types]
    for c in list(t.colnames):
        t.rename_column(c, c.upper())
    if w == "boss":
        from redrock.external.boss import write_zbest
        if bad:
            t["BAD"] = np.array([object()] * len(t))
        return lambda path: write_zbest(path, t, {x.full_type: x.version for x in temps}, None)
    if w == "zbest":
        from redrock.external.desi import write_zbest
        fm = Table(dict(TARGETID=ids, TARGET_RA=g.uniform(0, 360, nt)))
        ex = Table(dict(TARGETID=np.repeat(ids, 2), EXPID=np.arange(2 * nt)))
        sn = Table(dict(TARGETID=ids, TSNR2_LRG=g.uniform(0, 9, nt)))
        if bad:
            sn["BAD"] = np.array([object()] * len(sn))
        return lambda path: write_zbest(path, t, fm, ex, sn, temps)
    from redrock.external.desi import write_bestmodel
    waves = {b: np.linspace(3600, 9800, case["npix"]) + i for i, b in enumerate("brz"[:case["ntype"]])}
    models = {b: g.normal(size=(nt, case["npix"])) for b in waves}
    if bad:
        models[list(waves)[-1]] = np.array([["x"] * case["npix"]] * nt)
    return lambda path: write_bestmodel(path, t, models, waves, temps)


def dump(path):
    """Everything in an output file; raises if it is not a complete file."""
    out = {}
    if path.endswith(".h5"):
        import h5py
        with h5py.File(path, "r") as f:
            def visit(name, obj):
                if isinstance(obj, h5py.Dataset):
                    out[name] = obj[()].tobytes()
            f.visititems(visit)
        return out
    from astropy.io import fits
    with fits.open(path, memmap=False) as fx:
        if os.path.getsize(path) % 2880:
            raise OSError("truncated")
        for h in fx:
            out[h.name] = (None if h.data is None else np.asarray(h.data).tobytes(), [str(c) for c in h.header.cards if c.keyword not in ("DATE", "CHECKSUM", "DATASUM")])
    return out


def child(fn):
    """Exit code (or -signal) of fn run in a forked child."""
    sys.stdout.flush()
    pid = os.fork()
    if pid == 0:
        code = 3
        try:
            n = os.open(os.devnull, os.O_WRONLY)
            os.dup2(n, 1)
            os.dup2(n, 2)
            fn()
            code = 0
        except BaseException:
            code = 3
        finally:
            os._exit(code)
    _, s = os.waitpid(pid, 0)
    return os.waitstatus_to_exitcode(s)


def check(case, ctx):
    tmp = tempfile.mkdtemp(prefix="c19-")
    ext = ".h5" if case["w"] == "zscan" else ".fits"
    d = os.path.join(tmp, "out")
    os.mkdir(d)
    newdir = case["newdir"] and case["w"] != "boss" and case["old"] == "none"
    path = os.path.join(d, "sub" if newdir else "", "result" + ext)
    ref, refold = os.path.join(tmp, "ref" + ext), os.path.join(tmp, "refold" + ext)
    write = payload(case, case["seed"])
    write(ref)
    full = dump(ref)
    size = os.path.getsize(ref)
    old = None
    if case["old"] == "complete":
        payload(dict(case, nt=max(1, case["nt"] - 1)), case["seed"] + 1)(path)
        old = open(path, "rb").read()
    elif case["old"] == "junk":
        old = b"not a redrock file" * 50
        open(path, "wb").write(old)
    other = os.path.join(d, "other" + ext)
    open(other, "wb").write(b"other")
    if case["stale"] and not newdir:
        open(path + ".tmp", "wb").write(b"left from a run that was killed" * 3)     # as such a run leaves it
    fault = case["fault"]
    arg = path
    if case["env"]:
        os.environ["C19DIR"] = d
        arg = path.replace(d, "$C19DIR")
    w2 = payload(case, case["seed"], bad=fault == "data")

    def go():
        if fault.startswith("limit"):
            if fault == "limit-kill":
                signal.signal(signal.SIGXFSZ, signal.SIG_DFL)
            n = int(case["frac"] * size)
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            resource.setrlimit(resource.RLIMIT_FSIZE, (n, n))
        elif fault.endswith("rename"):
            for m, name in ((os, "rename"), (os, "replace"), (shutil, "move")):
                def f(*a, _f=getattr(m, name), **k):
                    if fault == "before rename":
                        os.kill(os.getpid(), signal.SIGKILL)
                    _f(*a, **k)
                    os.kill(os.getpid(), signal.SIGKILL)
                setattr(m, name, f)
        w2(arg)
    rc = child(go)
    now = open(path, "rb").read() if os.path.exists(path) else None
    require(open(other, "rb").read() == b"other", "another file was changed")
    what = "%s, fault %s at %.3f of %d bytes, exit %d" % (case["w"], fault, case["frac"], size, rc)
    complete = False
    if now is not None and now != old:
        try:
            complete = dump(path) == full
        except Exception as e:
            fail("%s: the output is unreadable: %s", what, e)
        require(complete, "%s: the output is neither the old nor the complete new file", what)
    if rc == 0:
        require(complete or (now is not None and now == old and dump(path) == full), "%s: reported success without writing the file", what)
        left = sorted(os.listdir(os.path.dirname(path)))
        want = sorted(["result" + ext] + ["other" + ext] * (not newdir))
        require([f for f in left if not (case["stale"] and f == "result" + ext + ".tmp")] == want, "%s: left behind %s", what, left)
    elif now is None and old is not None:
        require(case["w"] == "zscan" and case["clobber"], "%s: the old file is gone", what)
    if fault == "none":
        require(rc == 0, "%s: failed without a fault", what)
    if fault == "data":
        require(rc != 0, "%s: bad data accepted", what)
    # once the fault is over the same call succeeds
    if rc != 0:
        require(child(lambda: payload(case, case["seed"])(arg)) == 0, "%s: the next run fails", what)
        require(dump(path) == full, "%s: the next run gives an incomplete file", what)
    ctx.label(case["w"])
    ctx.label(fault + (" (failed)" if rc else " (completed)"))
    ctx.nontrivial(rc != 0)


def warm():
    import redrock.external.desi, redrock.external.boss, h5py  # noqa


FACETS = [Facet("faults", cases, check, quick=240, thorough=8000, shards=8, setup=warm,
                rule="details, redshift, BOSS and model files x old contents x fault kind and position; non-trivial = the writing process failed")]
