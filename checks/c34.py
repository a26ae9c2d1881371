"""C34: GPU runs give the answer of CPU runs."""
import os, copy, tempfile, threading
import numpy as np
from hypothesis import strategies as st
from vlib import fakecupy
fakecupy.install()
from vlib.core import Facet, require, fail
from vlib import world, fakempi, oracle
from vlib import desifiles as D

ASSUMPTIONS = ["there is no GPU here: cupy is a stand-in on numpy arrays which compiles the CUDA kernels as C++ and runs their threads one after another, in several orders, "
               "with every index checked; races between threads, the memory of a device and cupy's own functions are not covered",
               "targets whose answer changes when the flux changes by 1e-9 are compared by their scan only", "singular fits are excluded: the GPU solver does not report them",
               "MPI is emulated"]
RT = 1e-5


def strict(order, ngpu=1):
    fakecupy.reset(order, ngpu)


def inside(what):
    require(not fakecupy.OOB, "%s: kernels read or write out of bounds: %s", what, fakecupy.OOB[:3])


def get(x):
    return x.get() if isinstance(x, fakecupy.ndarray) else np.asarray(x)


def oncpu(x, what):
    require(isinstance(x, fakecupy.ndarray), "%s: the result is not a GPU array", what)
    return x.get()


# ---------------------------------------------------------------- rebinning
@st.composite
def rebin_cases(draw):
    return dict(seed=draw(st.integers(0, 2**31)), nx=draw(st.integers(2, 60)), grid=draw(st.sampled_from(["even", "log", "uneven", "uneven"])), nb=draw(st.integers(0, 4)),
                nbin=draw(st.integers(1, 40)), z=draw(st.sampled_from(["none", "scalar", "one", "many", "many"])), nz=draw(st.integers(1, 12)), neg=draw(st.booleans()),
                lo=draw(st.sampled_from(["in", "in", "end", "node"])), hi=draw(st.sampled_from(["in", "in", "end", "node"])),
                bins=draw(st.sampled_from(["even", "uneven", "fine"])), form=draw(st.sampled_from(["edges", "edges", "centers", "gpu"])), order=draw(st.sampled_from([0, 1, 2, 5])))


def rebin_setup(case):
    g = world.rng(case["seed"])
    n = case["nx"]
    x = np.linspace(1000, 2000, n) if case["grid"] == "even" else 10 ** np.linspace(3, 3.3, n) if case["grid"] == "log" else np.sort(1000 + 1000 * g.uniform(size=n))
    x = np.unique(x)
    if len(x) < 2:
        x = np.array([1000., 2000.])
    y = g.normal(size=(case["nb"], len(x)) if case["nb"] else len(x)) + 2
    if case["z"] == "none":
        myz, zs = None, np.array([0.0])
    else:
        zs = np.sort(g.uniform(-0.3 if case["neg"] else 0, 0.2, size=case["nz"] if case["z"] == "many" else 1))
        myz = float(zs[0]) if case["z"] == "scalar" else zs
    a, b = x[0] * (1 + zs.max()), x[-1] * (1 + zs.min())
    return g, x, y, myz, zs, a, b


def check_rebin(case, ctx):
    import cupy as cp
    from redrock.rebin import trapz_rebin, centers2edges
    g, x, y, myz, zs, a, b = rebin_setup(case)
    if not b > a * (1 + 1e-6):
        return
    w = b - a
    lo = a if case["lo"] == "end" else a + w * 0.05 * g.uniform()
    hi = b if case["hi"] == "end" else b - w * 0.05 * g.uniform()
    nodes = x[1:-1] * (1 + zs[0])
    nodes = nodes[(nodes > a) & (nodes < b)]
    if len(nodes) and case["lo"] == "node":
        lo = nodes[0]
    if len(nodes) and case["hi"] == "node" and nodes[-1] > lo:
        hi = nodes[-1]
    k = case["nbin"] + 1
    e = np.linspace(lo, hi, k) if case["bins"] == "even" else np.unique(np.concatenate([[lo, hi], lo + (hi - lo) * g.uniform(size=k - 2 if k > 2 else 0)])) \
        if case["bins"] == "uneven" else np.concatenate([[lo], np.linspace((lo + hi) / 2, (lo + hi) / 2 * (1 + 1e-3), k)])
    if not np.all(np.diff(e) > 1e-9 * e[-1]) or e[0] < a or e[-1] > b:
        return
    kw = dict(edges=e)
    if case["form"] == "centers":
        c = (e[1:] + e[:-1]) / 2
        if len(c) < 3:
            return
        ee = centers2edges(c)
        if ee[0] < a or ee[-1] > b:
            return
        kw = dict(xnew=c)
    strict(case["order"])
    ref = trapz_rebin(x, y, myz=myz, **kw)
    if case["form"] == "gpu":
        got = trapz_rebin(cp.asarray(x), cp.asarray(y), edges=cp.asarray(e), myz=None if myz is None else myz if np.isscalar(myz) else cp.asarray(myz), use_gpu=True,
                          xmin=a, xmax=b, edge_min=e[0], edge_max=e[-1])
    else:
        got = trapz_rebin(x, y, myz=myz, use_gpu=True, **kw)
    got = oncpu(got, "rebin")
    inside("rebin")
    require(got.shape == ref.shape, "shape %s on the GPU, %s on the CPU", got.shape, ref.shape)
    # bins narrower than the rounding of wavelengths have few digits
    ed = e if "edges" in kw else ee
    tol = 1e-12 * np.max(np.abs(y)) * (1 + ed[-1] / np.diff(ed).min())
    if case["grid"] == "uneven":
        tol *= 1 + ed[-1] / np.diff(x).min() * 1e-3
    require(np.allclose(got, ref, rtol=1e-9, atol=tol), "GPU rebinning gives %s, CPU rebinning %s", got[~np.isclose(got, ref, rtol=1e-9, atol=tol)][:5],
            ref[~np.isclose(got, ref, rtol=1e-9, atol=tol)][:5])
    ctx.label("ends", "end" in (case["lo"], case["hi"]))
    ctx.label("several redshifts", len(zs) > 1)
    ctx.nontrivial(case["nx"] > 2 and case["nbin"] > 1)


# ---------------------------------------------------------------- IGM
@st.composite
def igm_cases(draw):
    return dict(seed=draw(st.integers(0, 2**31)), model=draw(st.sampled_from(["None", "Calura12", "Kamble20", "Inoue14", "Inoue14"])), nz=draw(st.integers(1, 8)),
                z=draw(st.sampled_from(["scalar", "array", "array"])), zlo=draw(st.sampled_from([0.0, 1.0, 2.0, 4.0])), zw=draw(st.sampled_from([0.05, 0.5, 4.0])),
                nw=draw(st.integers(1, 60)), lo=draw(st.sampled_from([600.0, 3600.0, 3600.0, 8000.0])), keep=draw(st.booleans()), order=draw(st.sampled_from([0, 1, 2])),
                gz=draw(st.booleans()))


def check_igm(case, ctx):
    import cupy as cp
    from redrock.igm import transmission_Lyman
    g = world.rng(case["seed"])
    w = np.sort(g.uniform(case["lo"], case["lo"] * 1.7, size=case["nw"]))
    z = case["zlo"] + case["zw"] * g.uniform(size=case["nz"])
    if case["z"] == "scalar":
        z = float(z[0])
    strict(case["order"])
    ref = transmission_Lyman(z, w, model=case["model"], always_return_array=case["keep"])
    got = transmission_Lyman(cp.asarray(z) if case["gz"] and case["z"] == "array" else z, w, model=case["model"], always_return_array=case["keep"], use_gpu=True)
    inside("transmission")
    require((got is None) == (ref is None), "%s on the GPU, %s on the CPU", got, ref)
    if ref is None:
        ctx.label("no absorption")
        return
    got = oncpu(got, "transmission")
    require(got.shape == np.shape(ref), "shape %s on the GPU, %s on the CPU", got.shape, np.shape(ref))
    require(np.allclose(got, ref, rtol=1e-10, atol=1e-12), "transmission on the GPU %s, on the CPU %s", got, ref)
    ctx.label(case["model"])
    ctx.nontrivial(bool(np.any(ref < 1)))


# ---------------------------------------------------------------- comparing answers
EXACT = ("targetid", "znum", "spectype", "subtype", "zwarn", "npixels", "ncoeff", "fitmethod", "pca_spectype", "pca_subtype")


def rowdiff(a, b, scale, skip=()):
    """Why two tables of one target differ, or None."""
    if set(a.colnames) != set(b.colnames):
        return "columns %s" % sorted(set(a.colnames) ^ set(b.colnames))
    if len(a) != len(b):
        return "%d rows, %d rows" % (len(a), len(b))
    for c in a.colnames:
        x, y = np.asarray(a[c]), np.asarray(b[c])
        if c in skip:
            continue
        if x.dtype.kind in "SU":
            x, y = np.char.strip(x.astype(str)), np.char.strip(y.astype(str))
            if c.lower() == "subtype":
                # archetypes without amplitude are all alike
                both = np.any([np.any(np.asarray(t["coeff" if "coeff" in t.colnames else "COEFF"]).reshape(len(x), -1), axis=1) for t in (a, b)], axis=0)
                x, y = x[both], y[both]
            ok = list(x) == list(y)
        elif c in EXACT or x.dtype.kind in "ib":
            ok = np.array_equal(x, y)
        else:
            x, y = x.reshape(len(x), -1).astype(float), y.reshape(len(y), -1).astype(float)
            n = max(x.shape[1], y.shape[1])
            x, y = [np.pad(v, ((0, 0), (0, n - v.shape[1]))) for v in (x, y)]
            atol = dict(chi2=1e-7 * scale, deltachi2=1e-6 * scale, z=1e-6, zerr=1e-9).get(c.lower(), RT * np.max(np.abs(y), initial=0))
            ok = np.allclose(x, y, rtol=RT if c.lower() != "zerr" else 1e-3, atol=atol, equal_nan=True)
        if not ok:
            return "column %s: %s and %s" % (c, x.tolist(), y.tolist())
    return None


def perturb(targets, seed):
    g = world.rng(seed)
    for t in targets:
        for s in t.spectra:
            s.flux = np.asarray(s.flux, float) * (1 + 1e-9 * g.uniform(-1, 1, size=len(s.flux)))
    return targets


def tied(scan, tab, i, scale):
    """Neighbouring redshifts or two rows with the same chi2, such as that of no model at all."""
    if any(np.any(np.abs(np.diff(d["zchi2"] + d["penalty"])) <= 1e-11 * scale) for d in scan[i].values()):
        return True
    c = np.sort(np.asarray(tab["chi2"])[np.asarray(tab["targetid"]) == i])
    return bool(np.any(np.diff(c) <= 1e-10 * scale))


def stable(mk, run, scan, ref, scales):
    """Targets whose answer does not hang on the last digits."""
    nodata = {t.id for t in mk() if not any(np.any(s.ivar) for s in t.spectra)}
    out = {i for i in scales if i in nodata or not tied(scan, ref, i, scales[i])}
    for k in (1, 2):
        tab = run(perturb(mk(), k))[1]
        for i in list(out):
            if rowdiff(ref[np.asarray(ref["targetid"]) == i], tab[np.asarray(tab["targetid"]) == i], scales[i]) is not None:
                out.discard(i)
    return out


def solvable(scan, i):
    return all(np.all(d["zchi2"] < oracle.HUGE) and np.all(np.isfinite(d["zchi2"])) for d in scan[i].values())


# ---------------------------------------------------------------- zfind
@st.composite
def zfind_cases(draw):
    from checks import c30
    ts = draw(world.template_specs(1, 3, nzmin=8, nzmax=20, nbmax=4))
    ncam = draw(st.sampled_from([1, 2, 3]))
    g = draw(world.target_specs(1, 3, ncam=(ncam,), npixmin=16, npixmax=50, kinds=["normal"] * 5 + ["noise", "nodata"], nspecmax=draw(st.sampled_from([1, 1, 3]))))
    f4 = draw(st.booleans())
    for s in g:
        s["f4"] = f4
    a = draw(c30.archs(ts)) if draw(st.integers(0, 2)) == 0 else None
    return dict(ts=ts, g=g, a=a, o=draw(c30.options(ncam)), nminima=draw(st.sampled_from([1, 2, 4])), npoints=draw(st.sampled_from([None, None, 9, 30])),
                order=draw(st.sampled_from([0, 1, 3])), coadd=draw(st.sampled_from([None, None, "first", "later"])), low=draw(st.integers(0, 3)) == 0)


def check_zfind(case, ctx):
    from redrock.targets import DistTargetsCopy
    from redrock.templates import DistTemplate
    from redrock.zfind import zfind
    from checks import c30
    ids = [world.BIG + i for i in range(len(case["g"]))]
    ts = [world.make_template(s) for s in case["ts"]]
    gts = [world.make_template(s) for s in case["ts"]]
    A = B = None
    kw = dict(nminima=case["nminima"], zminfit_npoints=case["npoints"])
    if case["a"]:
        A = c30.load(case["a"], tempfile.mkdtemp(prefix="c34-"))
        B = c30.load(case["a"], tempfile.mkdtemp(prefix="c34-"))
        kw.update(c30.kwargs(case["o"], case["g"][0]["ncam"]))

    def mk(cpu=True):
        T = [world.make_target(s, i, ts) for s, i in zip(case["g"], ids)]
        if case["coadd"] == "first" or cpu and case["coadd"]:
            for t in T:
                t.compute_coadd()
        return T

    def run(T, gpu=False, tt=ts, arch=A):
        dt = DistTargetsCopy(T)
        w = dt.wavegrids()
        return zfind(dt, [DistTemplate(t, w, use_gpu=gpu, gpu_mode=gpu) for t in tt], archetypes=arch, use_gpu=gpu, **kw)
    strict(case["order"])
    T = mk()
    scan, tab = run(T)
    import cupy
    mem = cupy.cuda.Device.mem_info
    if case["low"]:
        cupy.cuda.Device.mem_info = (1 << 30, 16 << 30)
    try:
        G = mk(False)
        if case["coadd"] == "later":
            # the same targets, fitted before and after they are coadded
            run(G, True, gts, B)
            for t in G:
                t.compute_coadd()
        gscan, gtab = run(G, True, gts, B)
    finally:
        cupy.cuda.Device.mem_info = mem
        import redrock.zscan
        if hasattr(redrock.zscan, "cp_memcheck"):
            redrock.zscan.cp_memcheck = False
    inside("zfind")
    scales = {t.id: max(sum(float(np.sum(np.asarray(s.ivar, float) * np.asarray(s.flux, float)**2)) for s in t.spectra), 1.0) for t in T}
    require(list(gtab["targetid"]) == list(tab["targetid"]) or sorted(set(gtab["targetid"])) == sorted(set(tab["targetid"])), "targets %s on the GPU", list(gtab["targetid"]))
    require(sorted(gscan) == sorted(scan), "targets of the scan")
    keep = [t.id for t in T if solvable(scan, t.id) or not any(np.any(s.ivar) for s in t.spectra)]
    ctx.label("singular", len(keep) < len(ids))
    for i in keep:
        require(set(gscan[i]) == set(scan[i]), "templates of the scan of target %d", i)
        for ft, s in scan[i].items():
            q = gscan[i][ft]
            require(isinstance(q["zchi2"], np.ndarray) and np.array_equal(q["redshifts"], s["redshifts"]), "redshifts of the GPU scan")
            require(np.allclose(q["zchi2"], s["zchi2"], rtol=1e-7, atol=(1e-5 if case["g"][0]["f4"] else 1e-9) * scales[i]), "target %d template %s: zchi2 on the GPU %s, on the CPU %s", i, ft, q["zchi2"], s["zchi2"])
            require(np.allclose(q["penalty"], s["penalty"], rtol=1e-4, atol=1e-5 * max(1, np.max(np.abs(s["zcoeff"])))), "target %d template %s: penalty on the GPU %s, on the CPU %s", i, ft, q["penalty"], s["penalty"])
    good = stable(mk, run, scan, tab, {i: scales[i] for i in keep})
    ctx.label("unstable answer", len(good) < len(keep))
    for i in good:
        m = rowdiff(gtab[np.asarray(gtab["targetid"]) == i], tab[np.asarray(tab["targetid"]) == i], scales[i])
        require(m is None, "target %d on the GPU and on the CPU: %s", i, m)
    ctx.label("archetypes", case["a"] is not None)
    ctx.label("several spectra per camera", any(s["nspec"] > 1 for s in case["g"]) and not case["coadd"])
    ctx.label("NMF", any(t["method"] == "NMF" for t in case["ts"]))
    ctx.nontrivial(len(good) > 0 and any(s["kind"] == "normal" for s in case["g"]))


# ---------------------------------------------------------------- many targets per GPU
@st.composite
def crowd_cases(draw):
    return dict(seed=draw(st.integers(0, 2**31)), n=draw(st.integers(10001, 10030)), live=draw(st.integers(2, 5)), size=draw(st.integers(2, 3)), ngpu=1,
                maxgpu=draw(st.sampled_from([None, None, 1])), nexp=1)


def check_crowd(case, ctx):
    from redrock.external.desi import rrdesi
    from redrock.templates import Template
    from checks import c24
    from astropy.table import Table
    tmp = tempfile.mkdtemp(prefix="c34-")
    tpaths, targ = c24.template_files(dict(tform="list", ts=[dict(spectype="STAR", subtype="A", seed=case["seed"], nbasis=1, nz=5, method="PCA", igm="None")]), tmp)
    ts = [Template(p) for p in tpaths]
    g = world.rng(case["seed"])
    n = case["n"]
    live = set(g.choice(n, size=case["live"], replace=False).tolist())
    T = [dict(tid=100 + 3 * i, seed=1000 + i % 5, nexp=1, fs=[0], objtype="TGT", junk=False, dead=i not in live, sig=0.6, rk="norm", snr=5.0, tmpl=0, zfrac=0.5) for i in range(n)]
    spec = lambda t: dict(coadded=True, targets=t, oseed=1, shuffle=False, bands="b", npix=12, mask=False, tiles=False)
    D.write(os.path.join(tmp, "all.fits"), spec(T), ts)
    D.write(os.path.join(tmp, "few.fits"), spec([T[i] for i in sorted(live)]), ts)
    opt = ["-t"] + targ + ["--nminima", "1", "--mp", "1"]
    rrdesi(opt + ["-i", os.path.join(tmp, "few.fits"), "-o", os.path.join(tmp, "cpu.fits")])
    strict(0, case["ngpu"])

    def rank(comm):
        threading.current_thread().vr_gpu = comm.rank % case["ngpu"]
        rrdesi(opt + ["-i", os.path.join(tmp, "all.fits"), "-o", os.path.join(tmp, "gpu.fits"), "--gpu"] + ([] if case["maxgpu"] is None else ["--max-gpuprocs", str(case["maxgpu"])]), comm=comm)
    fakempi.World(case["size"]).run(rank)
    a, b = Table.read(os.path.join(tmp, "gpu.fits"), "REDSHIFTS"), Table.read(os.path.join(tmp, "cpu.fits"), "REDSHIFTS")
    require(list(a["TARGETID"]) == [t["tid"] for t in T], "%d targets, %d of them in the output", n, len(a))
    at = {t: i for i, t in enumerate(a["TARGETID"].tolist())}
    for r in b:
        q = a[at[r["TARGETID"]]]
        for c in ("Z", "CHI2", "ZWARN", "SPECTYPE", "NPIXELS", "DELTACHI2"):
            require(q[c] == r[c] or np.isclose(q[c], r[c], rtol=1e-4, atol=1e-6) if c not in ("SPECTYPE",) else q[c] == r[c], "target %d: %s is %s, of a small CPU run %s", r["TARGETID"], c, q[c], r[c])
    require(np.count_nonzero(a["NPIXELS"]) == len(live), "targets with pixels")
    ctx.label("ranks without GPU", case["maxgpu"] is None)
    ctx.nontrivial(case["maxgpu"] is None)


# ---------------------------------------------------------------- rrdesi --gpu
@st.composite
def run_cases(draw):
    from checks import c24, c30
    case = draw(c24.cases(plain=True))
    case.update(draw(c30.run_cases()) if draw(st.integers(0, 2)) == 0 else dict(a=None))
    case.update(out=draw(st.sampled_from(["o", "od", "odm", "d"])), size=draw(st.sampled_from([0, 1, 2, 3, 4, 5])), maxgpu=draw(st.sampled_from([None, None, 1, 2, 3, 9])),
                ngpu=draw(st.integers(1, 4)), order=draw(st.sampled_from([0, 1, 3])), mp=draw(st.sampled_from([1, 1, 2])), choices=draw(st.lists(st.integers(0, 9), max_size=6)))
    return case


def tables(out):
    """Every table, image and header of the output files."""
    from astropy.io import fits
    from astropy.table import Table
    from redrock.results import read_zscan
    r = {}
    for k, p in out.items():
        if k == "d":
            scan, z = read_zscan(p)
            r["details"] = z
            r["scan"] = scan
            continue
        with fits.open(p) as fx:
            for h in fx:
                if h.data is None:
                    continue
                r[k + ":" + h.name] = Table(h.data) if hasattr(h.data, "names") and h.data.names else np.array(h.data)
            r[k + ":header"] = {c: v for c, v in fx[0].header.items() if c[:6] in ("TEMNAM", "TEMVER", "TEMFIL", "ARCNAM", "ARCVER") or c in ("SPGRPVAL", "SURVEY")}
    return r


def check_run(case, ctx):
    from redrock.external.desi import rrdesi
    from redrock.templates import Template
    from checks import c24, c30
    tmp = tempfile.mkdtemp(prefix="c34-")
    tdir, adir = os.path.join(tmp, "templates"), os.path.join(tmp, "arch")
    os.mkdir(tdir), os.mkdir(adir)
    tpaths, targ = c24.template_files(case, tdir)
    ts = [Template(p) for p in tpaths]
    inp = []
    for k, s in enumerate(case["files"]):
        inp.append(os.path.join(tmp, "in%d.fits" % k))
        D.write(inp[-1], s, ts)
    ids, first, n = case.get("ids"), case.get("first"), case.get("n")
    want, per = D.select(case["files"], ids, first, n)
    if not want:
        return
    opt = ["-i"] + inp + ["-t"] + targ + ["--allspec"] * case["allspec"] + ["--no-skymask"] * (not case["skymask"])
    for k, o in (("nminima", "--nminima"), ("npoints", "--zminfit-npoints"), ("neg", "--negflux-nsig"), ("first", "--mintarget"), ("n", "-n")):
        if case.get(k) is not None:
            opt += [o, str(case[k])]
    if ids is not None:
        opt += ["--targetids", ",".join(str(i) for i in ids)]
    A = None
    kw = dict(nminima=case["nminima"] or (9 if case["a"] else 3))
    if case.get("npoints"):
        kw["zminfit_npoints"] = case["npoints"]
    T = c24.targets(case, want, per, ts)
    if case["a"]:
        A = c30.load(case["a"], adir)
        o = case["o"]
        opt += ["--archetypes", adir] + ["--archetypes-no-legendre"] * o["off"]
        for k, q in (("percam", "--archetype-legendre-percamera"), ("nleg", "--archetype-legendre-degree"), ("prior", "--archetype-legendre-prior"), ("nn", "--archetype-nnearest")):
            if o[k] is not None:
                opt += [q + "=" + str(o[k])]
        ncam = len(set(s.wavehash for t in T for s in t.spectra))
        kw.update(deg_legendre=0 if o["off"] else 2 if o["nleg"] is None else o["nleg"], per_camera=False if o["off"] or ncam == 1 else True if o["percam"] is None else o["percam"],
                  prior_sigma=None if o["off"] else 0.1 if o["prior"] is None else o["prior"] if o["prior"] > 0 else None, n_nearest=o["nn"], ncamera=ncam)

    def files(sub):
        d = os.path.join(tmp, sub)
        os.makedirs(d, exist_ok=True)
        out = {k: os.path.join(d, x) for k, x in (("o", "redrock.fits"), ("d", "rrdetails.h5"), ("m", "rrmodel.fits")) if k in case["out"]}
        return out, [x for k, q in (("o", "-o"), ("d", "-d"), ("m", "--model")) if k in out for x in (q, out[k])]
    out, more = files("cpu")
    rrdesi(opt + more + ["--mp", "1"])
    ref = tables(out)
    strict(case["order"], case["ngpu"])
    out, more = files("gpu")
    gopt = opt + more + ["--mp", str(case["mp"]), "--gpu"] + ([] if case["maxgpu"] is None else ["--max-gpuprocs", str(case["maxgpu"])])

    def rank(comm):
        # ranks are dealt out to the GPUs of the node
        threading.current_thread().vr_gpu = comm.rank % case["ngpu"]
        rrdesi(list(gopt), comm=comm)
    if case["size"]:
        fakempi.World(case["size"], case["choices"]).run(rank)
    else:
        rrdesi(list(gopt))
    inside("rrdesi")
    got = tables(out)
    require(list(got) == list(ref), "outputs of the GPU run %s, of the CPU run %s", list(got), list(ref))
    scales = {t.id: max(sum(float(np.sum(s.ivar * s.flux**2)) for s in t.spectra), 1.0) for t in T}
    mk = lambda: c24.targets(case, want, per, ts)
    run = lambda t: world.run_zfind(t, ts, archetypes=A, **kw)
    scan, tab = run(T)
    ok = {i: s for i, s in scales.items() if solvable(scan, i) or not any(np.any(s.ivar) for t in T if t.id == i for s in t.spectra)}
    good = stable(mk, run, scan, tab, ok)
    ctx.label("unstable answer", len(good) < len(want))
    for name, x in ref.items():
        y = got[name]
        if name == "scan":
            require(sorted(x) == sorted(y), "targets of the details")
            for i in good:
                for ft in x[i]:
                    require(np.array_equal(x[i][ft]["redshifts"], y[i][ft]["redshifts"]) and np.allclose(x[i][ft]["zchi2"], y[i][ft]["zchi2"], rtol=1e-5, atol=1e-6 * scales[i]),
                            "scan of target %d, template %s: %s on the GPU, %s on the CPU", i, ft, y[i][ft]["zchi2"], x[i][ft]["zchi2"])
        elif isinstance(x, dict):
            require(x == y, "header of the GPU run %s, of the CPU run %s", y, x)
        elif isinstance(x, np.ndarray):
            require(x.shape == y.shape, "%s: shapes %s %s", name, x.shape, y.shape)
            rows = [k for k, i in enumerate(want) if i in good] if x.ndim == 2 else slice(None)
            require(np.allclose(y[rows], x[rows], rtol=1e-3, atol=1e-4 * np.max(np.abs(x), initial=0)), "%s differs", name)
        else:
            tid = "TARGETID" if "TARGETID" in x.colnames else "targetid"
            require(list(dict.fromkeys(x[tid])) == list(dict.fromkeys(y[tid])), "%s: targets %s on the GPU, %s on the CPU", name, list(y[tid]), list(x[tid]))
            for i in want:
                p, q = x[np.asarray(x[tid]) == i], y[np.asarray(y[tid]) == i]
                if i in good or "FIBERMAP" in name or "TSNR2" in name:
                    m = rowdiff(q, p, scales[i])
                    require(m is None, "%s, target %d on the GPU and on the CPU: %s", name, i, m)
    ctx.label("MPI", case["size"] > 1)
    ctx.label("ranks without GPU", case["size"] > (case["maxgpu"] or case["ngpu"]))
    ctx.label("more GPU ranks than targets", case["size"] > len(want))
    ctx.label("archetypes", case["a"] is not None)
    ctx.nontrivial(len(good) > 1)


def warm():
    import redrock.external.desi  # noqa
    import redrock.rebin, redrock.zscan
    from checks.c01 import warm as w
    w()
    # compile the kernels once, before the shards start
    for m in (redrock.rebin, redrock.zscan):
        src = getattr(m, "cuda_source", None)
        if isinstance(src, str):
            try:
                fakecupy.compile_source(src)
            except Exception:
                pass


FACETS = [Facet("crowd", crowd_cases, check_crowd, quick=1, thorough=16, shards=1, thorough_shards=8, setup=warm,
                rule="rrdesi --gpu on over 10000 targets, most of them without data, on 2-3 emulated ranks sharing one GPU; non-trivial = ranks without GPU take part"),
          Facet("rebin", rebin_cases, check_rebin, quick=2400, thorough=60000, shards=8, setup=warm,
                rule="grids of 2-60 points, even, logarithmic, uneven x 0-4 bases x no, one, many redshifts x bins inside, to the very ends, on the points x host and device arrays x "
                     "thread orders; values and shapes against the CPU, no index out of bounds; non-trivial = several bins"),
          Facet("igm", igm_cases, check_igm, quick=600, thorough=20000, shards=4, setup=warm,
                rule="models x redshifts, scalar and arrays x wavelengths on both sides of Lyman alpha; against the CPU; non-trivial = some absorption"),
          Facet("zfind", zfind_cases, check_zfind, quick=240, thorough=6000, shards=8, setup=warm,
                rule="1-3 targets x 1-3 templates x with and without archetypes, coadds, float32 spectra, little GPU memory x thread orders; scan, penalties and table against the CPU; "
                     "non-trivial = a target with signal and a stable answer"),
          Facet("rrdesi", run_cases, check_run, quick=120, thorough=3000, shards=8, setup=warm,
                rule="rrdesi --gpu on 1-2 spectra files, serial or with 1-5 emulated ranks on 1-4 GPUs, with and without --max-gpuprocs x options of C24 and C30; every table, image, header and "
                     "scan against the CPU run; non-trivial = several targets with a stable answer")]
