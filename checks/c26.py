"""C26: reading SDSS plates and running rrboss on them."""
import os, tempfile
import numpy as np
import scipy.sparse
from hypothesis import strategies as st
from vlib.core import Facet, require, fail
from vlib import world, fakempi, procs
from checks.c16 import prior_file

ASSUMPTIONS = ["synthetic spPlate/spCFrame/photoPosPlate files with the HDUs, keywords and column types of SDSS files, few fibers and coarse pixels",
               "targets of several plates have positive, distinct THING_IDs; the exposures of a target are compared in the order of the files",
               "the resolution may be truncated anywhere beyond two pixel dispersions; pixels next to the wavelength limits are not judged"]
ID0 = 10**9


@st.composite
def plate(draw, nfmin=2, nfmax=5):
    nf = draw(st.integers(nfmin, nfmax))
    return dict(plate=draw(st.sampled_from([266, 4055, 7339, 15143])), mjd=draw(st.sampled_from([51602, 55359, 59200])), nf=nf, seed=draw(st.integers(0, 2**31)),
                lo=draw(st.sampled_from([3.52, 3.5502, 3.56])), npix=draw(st.integers(150, 260)), fid=draw(st.sampled_from(["i2", "i4", "i8"])), amask=draw(st.booleans()),
                zw=draw(st.booleans()), wd=draw(st.sampled_from([0.7, 1.0, 1.6])), fdt=draw(st.sampled_from(["f4", "f4", "f8"])))


@st.composite
def cases(draw, run=False):
    form = draw(st.sampled_from(["one", "one", "many", "frames", "frames2"]))
    ps = draw(st.lists(plate(), min_size=2 if form in ("many", "frames2") else 1, max_size=3 if form == "many" else 2 if form == "frames2" else 1))
    nexp = dict(b1=draw(st.integers(0, 2)), r1=draw(st.integers(0, 2)), b2=draw(st.integers(0, 1)), r2=draw(st.integers(0, 1)))
    if not any(nexp.values()):
        nexp["b1"] = 1
    sel = draw(st.sampled_from(["all", "all", "ids", "fiber"])) if not run else draw(st.sampled_from(["all", "all", "ids", "range"]))
    return dict(form=form, ps=ps, nexp=nexp, missing=draw(st.booleans()), sel=sel, pick=draw(st.lists(st.integers(0, 5), min_size=1, max_size=4, unique=True)),
                unknown=draw(st.integers(0, 3)) == 0, dup=draw(st.integers(0, 3)) == 0, coadd=draw(st.booleans()), cache=draw(st.booleans()), andmask=draw(st.booleans()),
                glob=draw(st.booleans()), first=draw(st.sampled_from([None, 0, 1])), n=draw(st.sampled_from([None, 1, 2])),
                arr=draw(st.sampled_from(["list", "array"])), things=draw(st.integers(0, 2**31)))


def rows_of(p, kind, t=None):
    """Flux, ivar, mask, loglam (2-D) and dispersion of the fibers of one file."""
    g = np.random.default_rng([p["seed"], kind])
    n, m = p["nf"], p["npix"]
    if kind == 0:
        dl = 0.0022
        ll = np.repeat((p["lo"] + dl * np.arange(m))[None], n, 0)
    else:
        blue = kind % 2 == 1
        m = m // 2
        ll = (3.545 if blue else 3.735) + 0.0022 * np.arange(m)[None] + g.uniform(-5e-4, 5e-4, n)[:, None]
    shape = (n, m)
    flux = g.normal(size=shape) + 3 * np.sin(ll * 40 + g.uniform(0, 6, n)[:, None]) + 4
    ivar = g.uniform(0.2, 3, shape) * (g.uniform(size=shape) > 0.1)
    mask = (g.uniform(size=shape) < 0.2 * p["amask"]).astype("i4") * 2**20
    wd = p["wd"] * g.uniform(0.8, 1.25, shape)
    if p["zw"]:
        wd[g.uniform(size=shape) < 0.05] = 0
    if t is not None:
        for k in range(n):
            flux[k] = (t(10**ll[k], k) + g.normal(size=m) * 0.05)
            ivar[k] = np.where(ivar[k] > 0, g.uniform(300, 500, m), 0)
    return [x.astype(p["fdt"]) for x in (flux, ivar)] + [mask, ll.astype("f8" if kind == 0 else p["fdt"]), wd.astype(p["fdt"])]


def table(name, col, arr):
    from astropy.io import fits
    return fits.BinTableHDU.from_columns([fits.Column(name=col, format={"i2": "I", "i4": "J", "i8": "K"}[arr.dtype.str[1:]], array=arr)], name=name)


def things(case, k):
    """THING_IDs of plate k: fibers of different plates are partly the same objects."""
    g = np.random.default_rng([case["things"], 0])
    base = g.permutation(4000)[:1000].astype("i4") + 1
    out = base.copy()
    if k:
        g = np.random.default_rng([case["things"], k])
        j = g.permutation(8)
        out[:8] = base[:8][j]
        if k > 1:
            out[0] = 5000 + k
    return out


def write(case, tmp, signal=None):
    """Writes the files; returns the spPlate names and the list of (id, wave, flux, ivar, wd) in reading order."""
    from astropy.io import fits
    frames = case["form"].startswith("frames")
    multi = len(case["ps"]) > 1
    names, data = [], []
    for k, p in enumerate(case["ps"]):
        d = os.path.join(tmp, "%d" % k)
        os.mkdir(d)
        name = os.path.join(d, "spPlate-%04d-%d.fits" % (p["plate"], p["mjd"]))
        names.append(name)
        h = fits.Header()
        h["PLATEID"], h["MJD"], h["COEFF0"], h["COEFF1"] = p["plate"], p["mjd"], p["lo"], 0.0022
        flux, ivar, mask, ll, wd = rows_of(p, 0, signal(k) if signal else None)
        fib = np.arange(1, p["nf"] + 1).astype(p["fid"])
        th = things(case, k)
        if multi:
            fits.HDUList([fits.PrimaryHDU(), table("PHOTO", "THING_ID", th)]).writeto(name.replace("spPlate", "photoPosPlate"))

        def tid(f):
            return int(th[f - 1]) if multi else p["plate"] * ID0 + p["mjd"] * 10000 + int(f)
        if frames:
            n = 0
            for c, cam in enumerate(("b1", "r1", "b2", "r2")):
                if case["nexp"][cam] or not case["missing"]:
                    h["NEXP_" + cam.upper()] = case["nexp"][cam]
                for e in range(case["nexp"][cam]):
                    n += 1
                    h["EXPID%02d" % n] = "%s-%08d-%08d-%08d" % (cam, 100 + 10 * k + e, 7, 8)
                    fl, iv, mk, l, w = rows_of(p, 1 + c % 2 + 2 * (c // 2) + 10 * e, signal(k) if signal else None)
                    ff = (fib + 500 * (c // 2)).astype(p["fid"])
                    fh = fits.Header()
                    fh["PLATEID"], fh["CAMERAS"], fh["MJD"] = p["plate"], cam, p["mjd"]
                    fits.HDUList([fits.PrimaryHDU(fl, fh), fits.ImageHDU(iv), fits.ImageHDU(mk), fits.ImageHDU(l), fits.ImageHDU(w),
                                  table("PLUGMAP", "FIBERID", ff)]).writeto(os.path.join(d, "spCFrame-%s-%08d.fits" % (cam, 100 + 10 * k + e)))
                    lim = (3500., 6000.) if cam[0] == "b" else (5500., 10000.)
                    for i, f in enumerate(ff):
                        data.append((tid(f), int(f), l[i], fl[i], iv[i], mk[i], w[i], lim))
        else:
            for i, f in enumerate(fib):
                data.append((tid(f), int(f), ll[i], flux[i], ivar[i], mask[i], wd[i], (3500., 10000.)))
        fits.HDUList([fits.PrimaryHDU(flux, h), fits.ImageHDU(ivar), fits.ImageHDU(mask), fits.ImageHDU(mask), fits.ImageHDU(wd),
                      table("PLUGMAP", "FIBERID", fib)]).writeto(name)
    return names, data


def gauss(n, wd, half):
    """Resolution with columns of Gaussians of the given dispersions."""
    i = np.arange(n)
    d = i[:, None] - i[None, :]
    G = np.exp(-d**2 / 2. / wd[None, :].astype("f8")**2)
    return np.where(np.abs(d) <= half, G, 0)


def wanted(case, data, ids=None):
    out = {}
    for r in data:
        if ids is not None and r[0] not in ids:
            continue
        out.setdefault(r[0], []).append(r)
    return dict(sorted(out.items()))


def compare(s, r, andmask, what):
    tid, fib, ll, fl, iv, mk, wd, (lo, hi) = r
    la = 10**ll.astype("f8")
    w = np.asarray(s.wave, "f8")
    i0 = int(np.argmin(np.abs(la - w[0])))
    n = len(w)
    require(i0 + n <= len(la) and np.allclose(la[i0:i0 + n], w, rtol=1e-6), "%s: wavelengths are no piece of the file's", what)
    step = la * 0.012
    inside = (la > lo + step) & (la < hi - step)
    inside[-1] = False
    got = np.zeros(len(la), bool)
    got[i0:i0 + n] = True
    require(not np.any(inside & ~got), "%s: pixels between %g and %g were cut", what, lo, hi)
    require(not np.any(got & ((la < lo - step) | (la > hi + step))), "%s: pixels outside %g to %g", what, lo, hi)
    require(np.array_equal(s.flux, fl[i0:i0 + n]), "%s: flux", what)
    return i0, n


def ivar_of(r, i0, n, andmask):
    iv = r[4][i0:i0 + n].astype("f8")
    return iv * (r[5][i0:i0 + n] == 0) if andmask else iv


def resolution(r, i0, n, s, what):
    wd = r[6][i0:i0 + n].astype("f8")
    wd = np.where(wd < 1e-5, 2., wd)
    R = s.R.toarray()
    d = np.abs(np.arange(n)[:, None] - np.arange(n)[None, :])
    need = d <= 2 * wd[None, :]
    G = gauss(n, wd, n)
    nz = R > 0
    require(not np.any(need & ~nz), "%s: resolution cut within two dispersions", what)
    # proportional to the Gaussian, column by column: pixel i of the model gets the light of pixel j with the dispersion of j
    c = R.diagonal()
    require(np.all(np.abs(R - np.where(nz, G * c[None, :], 0)) < 1e-6 * c[None, :]), "%s: resolution is no Gaussian of the dispersion", what)
    full = np.zeros(n, bool)
    half = int(np.max(np.where(nz, d, 0)))
    full[half:n - half] = True
    require(np.allclose(R.sum(axis=0)[full], 1, atol=1e-6), "%s: resolution columns are not normalised", what)
    require(np.abs((s.Rcsr - scipy.sparse.csr_matrix(s.R))).max() == 0 if s.Rcsr is not None else True, "%s: Rcsr differs from R", what)


def check(case, ctx):
    from redrock.external.boss import read_spectra
    from redrock.targets import Target, Spectrum
    tmp = tempfile.mkdtemp(prefix="c26-")
    names, data = write(case, tmp)
    allids = sorted({r[0] for r in data})
    kw, ids, fibs = {}, None, None
    if case["sel"] == "ids":
        ids = [allids[i % len(allids)] for i in case["pick"]]
        req = list(ids) if case["dup"] else list(dict.fromkeys(ids))
        if case["unknown"]:
            req.append(12345)
        kw["targetids"] = req if case["arr"] == "list" else np.array(req)
    elif case["sel"] == "fiber":
        fibs = [1 + i % 5 for i in case["pick"]]
        kw["fiberid"] = fibs if len(fibs) > 1 else fibs[0]
        data = [r for r in data if r[1] in fibs]
    want = wanted(case, data, ids)
    if not want:
        return
    arg = names
    if len(names) == 1 and case["glob"]:
        arg = names[0].replace("spPlate", "spP*")
    targets, meta = read_spectra(arg, use_frames=case["form"].startswith("frames"), coadd=False, cache_Rcsr=case["cache"], use_andmask=case["andmask"], **kw)
    require([int(t.id) for t in targets] == list(want), "targets %s, wanted %s", [int(t.id) for t in targets], list(want))
    require([int(x) for x in meta["TARGETID"]] == list(want), "metadata of %s", list(meta["TARGETID"]))
    lost = 0
    for t in targets:
        rs = want[int(t.id)]
        require(len(t.spectra) == len(rs), "target %d has %d spectra, files have %d", t.id, len(t.spectra), len(rs))
        for k, (s, r) in enumerate(zip(t.spectra, rs)):
            what = "target %d spectrum %d" % (t.id, k)
            i0, n = compare(s, r, case["andmask"], what)
            iv = ivar_of(r, i0, n, case["andmask"])
            iv0 = np.asarray(s.ivar)
            # pixels with an incomplete resolution are masked by Spectrum
            require(np.all((np.abs(iv0 - iv) <= 1e-6 * iv) | (iv0 == 0)), "%s: inverse variance", what)
            Rs = s.R.toarray().sum(axis=1)
            require(np.all((iv0 > 0) | (iv == 0) | (Rs < 0.99)), "%s: good pixels are masked", what)
            lost += np.sum((iv0 == 0) & (iv > 0))
            resolution(r, i0, n, s, what)
        if len(names) == 1:
            p = case["ps"][0]
            require(str(t.meta["BRICKNAME"]) == "%d-%d" % (p["plate"], p["mjd"]), "brick name %r", t.meta["BRICKNAME"])
    if len(names) == 1:
        p = case["ps"][0]
        require([x.decode() if isinstance(x, bytes) else str(x) for x in meta["BRICKNAME"]] == ["%d-%d" % (p["plate"], p["mjd"])] * len(want),
                "brick names in the metadata: %s", list(meta["BRICKNAME"]))
    # coadd: same as coadding the exposures which were read
    tc, _ = read_spectra(arg, use_frames=case["form"].startswith("frames"), coadd=True, cache_Rcsr=case["cache"], use_andmask=case["andmask"], **kw)
    require([int(t.id) for t in tc] == list(want), "coadded targets")
    for a, t in zip(tc, targets):
        b = Target(t.id, t.spectra, coadd=True)
        require(len(a.spectra) == len(b.spectra), "coadded spectra")
        for x, y in zip(a.spectra, b.spectra):
            require(np.array_equal(x.wave, y.wave) and np.array_equal(x.flux, y.flux) and np.array_equal(x.ivar, y.ivar)
                    and np.array_equal(x.R.toarray(), y.R.toarray()), "coadded spectrum differs from the coadd of the spectra")
    ctx.label(case["form"])
    ctx.label(case["sel"])
    ctx.nontrivial(len(want) > 1)


# ---------------------------------------------------------------- rrboss
@st.composite
def run_cases(draw):
    c = draw(cases(run=True))
    for p in c["ps"]:
        p["lo"], p["npix"] = draw(st.sampled_from([(3.6, 120), (3.57, 150)]))
    ts = draw(world.template_specs(1, 2, nzmin=10, nzmax=14, nbmax=2))
    for s in ts:
        s.update(obs_lo=3300.0, obs_hi=10300.0, dw=12.0)
        if s["spectype"] == "GALAXY":
            s.update(zlo=0.0, zhi=0.4)
        elif s["spectype"] == "QSO":
            s.update(zlo=0.4, zhi=0.9)
    c.update(ts=ts, out=draw(st.sampled_from(["od", "od", "o", "d"])), size=draw(st.sampled_from([0, 0, 0, 2, 3])), mp=draw(st.sampled_from([1, 1, 1, 2])),
             nminima=draw(st.sampled_from([None, 1, 2, 4])), scan=draw(st.integers(0, 3)) == 0, arch=[],
             prior=draw(st.sampled_from([None, None, "gaussian", "lorentzien", "tophat"])), seed=draw(st.integers(0, 2**31)))
    if draw(st.integers(0, 3)) == 0:
        types = list(dict.fromkeys(t["spectype"] for t in ts))
        for sp in draw(st.lists(st.sampled_from(types), min_size=1, max_size=len(types), unique=True)):
            zg = world.default_zgrid(sp, 10)
            c["arch"].append(draw(world.arch_specs(sp, zg[0], zg[-1], namax=3)))
    if c["sel"] == "range" and c["first"] is None and c["n"] is None:
        c["n"] = 1
    return c


def check_run(case, ctx):
    from redrock.external.boss import rrboss
    from redrock.templates import Template
    from redrock.results import read_zscan
    from astropy.io import fits
    tmp = tempfile.mkdtemp(prefix="c26-")
    tdir = os.path.join(tmp, "templates")
    os.mkdir(tdir)
    for k, s in enumerate(case["ts"]):
        world.write_template(s, os.path.join(tdir, "rrtemplate-%02d.fits" % k))
    ts = [Template(os.path.join(tdir, "rrtemplate-%02d.fits" % k)) for k in range(len(case["ts"]))]

    def signal(k):
        def f(w, i):
            t = ts[(i + k) % len(ts)]
            zz = t.redshifts[0] + (t.redshifts[-1] - t.redshifts[0]) * (0.2 + 0.1 * i)
            m = np.interp(w, t.wave * (1 + zz), t.flux[0])
            return m
        return f
    names, data = write(case, tmp, signal)
    allids = sorted({r[0] for r in data})
    out = {k: os.path.join(tmp, n) for k, n in (("o", "details.h5"), ("d", "zbest.fits")) if k in case["out"]}
    opt = ["--spplate"] + names + ["-t", tdir, "--mp", str(case["mp"])] + ["--allspec"] * (not case["coadd"]) + ["--use-andmask"] * case["andmask"]
    opt += ["--use-frames"] * case["form"].startswith("frames")
    if "o" in out:
        opt += ["-o", out["o"]]
    if "d" in out:
        opt += ["--zbest", out["d"]]
    if case["nminima"] is not None:
        opt += ["--nminima", str(case["nminima"])]
    A = None
    if case["arch"]:
        from redrock.archetypes import All_archetypes
        adir = os.path.join(tmp, "archetypes")
        os.mkdir(adir)
        for a in case["arch"]:
            world.write_archetype(a, os.path.join(adir, "rrarchetype-%s.fits" % a["spectype"].lower()))
        A = All_archetypes(archetypes_dir=adir).archetypes
        opt += ["--archetypes", adir]
    ids = None
    if case["sel"] == "ids":
        ids = list(dict.fromkeys(allids[i % len(allids)] for i in case["pick"]))
        opt += ["--targetids", ",".join(str(i) for i in ids + [12345] * case["unknown"])]
    want = wanted(case, data, ids)
    if case["sel"] == "range":
        f, n = case["first"], case["n"]
        if f is not None:
            opt += ["--mintarget", str(f)]
        if n is not None:
            opt += ["-n", str(n)]
        keep = list(want)[f or 0:][:n]
        want = {k: want[k] for k in keep}
    if not want:
        return
    # the spectra are those of the reader, which the other facet judges
    from redrock.external.boss import read_spectra
    targets, _ = read_spectra(names, targetids=list(want), use_frames=case["form"].startswith("frames"), coadd=case["coadd"], use_andmask=case["andmask"])
    require([int(t.id) for t in targets] == list(want), "targets read")
    kw = dict(nminima=case["nminima"] or 3)
    if A:
        # archetypes alone, the program has no options for Legendre terms
        kw.update(archetypes=A, per_camera=False, deg_legendre=0)
    if case["prior"]:
        os.mkdir(os.path.join(tmp, "priors"))
        kw["priors"] = os.path.join(tmp, "priors", "priors.fits")
        prior_file(kw["priors"], want, ts, case["prior"], np.random.default_rng(case["seed"]))
        opt += ["--priors", kw["priors"]]
    scan, z = world.run_zfind(targets, ts, **kw)

    def go(o):
        if case["size"]:
            fakempi.World(case["size"]).run(lambda comm: rrboss(list(o), comm=comm))
        elif case["mp"] > 1:
            procs.run(lambda: rrboss(list(o)), idle=30, total=600)
        else:
            rrboss(list(o))
    go(opt)
    require(sorted(f for f in os.listdir(tmp) if not f.isdigit() and f not in ("templates", "archetypes", "priors")) == sorted(os.path.basename(p) for p in out.values()), "outputs %s", os.listdir(tmp))
    if case["scan"] and "o" in out and "d" in out:
        again = os.path.join(tmp, "again.fits")
        i = opt.index("-o")
        o2 = opt[:i] + opt[i + 2:]
        o2[o2.index("--zbest") + 1] = again
        go(o2 + ["--chi2-scan", out["o"]])
        _, z3 = world.run_zfind(targets, ts, chi2_scan=out["o"], **kw)
        z3 = z3[z3["znum"] == 0]
        b = fits.getdata(again, "ZBEST")
        require(b["TARGETID"].tolist() == list(want) and np.allclose(z3["z"], b["Z"], rtol=1e-6, atol=1e-9) and [x.strip() for x in b["SPECTYPE"]] == list(z3["spectype"]),
                "fit with a re-used scan: %s instead of %s", b["Z"].tolist(), z3["z"].tolist())
        os.remove(again)
        ctx.label("re-used scan")

    def same(a, b, what, cast=None):
        a, b = np.asarray(a), np.asarray(b)
        if a.dtype.kind in "SU":
            a, b = np.char.strip(a.astype(str)), np.char.strip(b.astype(str))
        if a.ndim == 2:
            n = max(a.shape[1], b.shape[1])
            a, b = [np.pad(x, ((0, 0), (0, n - x.shape[1]))) for x in (a, b)]
        ok = np.array_equal(a, b) if a.dtype.kind in "SUib" else np.allclose(a, b, rtol=1e-5, atol=1e-7 * np.max(np.abs(b), initial=0, where=np.isfinite(b)), equal_nan=True)
        require(ok, "%s is %s, expected %s", what, a.tolist()[:6], b.tolist()[:6])
    brick = None
    if len(names) == 1:
        brick = "%d-%d" % (case["ps"][0]["plate"], case["ps"][0]["mjd"])
    cols = ("targetid", "z", "zerr", "zwarn", "chi2", "deltachi2", "npixels", "spectype", "subtype", "ncoeff", "coeff") + (("pca_coeff", "pca_spectype", "pca_subtype") if A else ())
    if "d" in out:
        best = z[z["znum"] == 0]
        with fits.open(out["d"]) as fx:
            require([h.name for h in fx] == ["PRIMARY", "ZBEST"], "HDUs %s", [h.name for h in fx])
            rr = fx["ZBEST"].data
            require(rr["TARGETID"].tolist() == list(want), "targets of the output %s, wanted %s", rr["TARGETID"].tolist(), list(want))
            for c in cols:
                same(rr[c.upper()], best[c], "column %s" % c.upper())
            if brick:
                require([x.strip() for x in rr["BRICKNAME"].tolist()] == [brick] * len(want), "BRICKNAME %s instead of %s", rr["BRICKNAME"].tolist(), brick)
            h = fx[0].header
            got = {h["TEMNAM%02d" % i]: h["TEMVER%02d" % i] for i in range(len(ts))}
            require(got == {t.full_type: t.version for t in ts} and "TEMNAM%02d" % len(ts) not in h, "templates in the header %s", got)
            got = {h["ARCNAM%02d" % i]: h["ARCVER%02d" % i] for i in range(len(A or {}))}
            require("ARCNAM%02d" % len(A or {}) not in h and got == {n: a.version for n, a in (A or {}).items()}, "archetypes in the header %s", got)
    if "o" in out:
        scan2, z2 = read_zscan(out["o"])
        for c in cols + ("znum",):
            same(z2[c], z[c], "details column %s" % c)
        for i in want:
            for ft in scan[i]:
                same(scan2[i][ft]["zchi2"], scan[i][ft]["zchi2"], "details zchi2")
    ctx.label(case["form"])
    ctx.label("MPI", case["size"] > 0)
    ctx.label("archetypes", A is not None)
    ctx.label("prior", bool(case["prior"]))
    ctx.label("selection", case["sel"] != "all")
    ctx.nontrivial(len(want) > 1)


@st.composite
def bad_cases(draw):
    return dict(kind=draw(st.sampled_from(["noout", "both", "notemplates", "nofile", "noids", "noarchetypes", "emptyarchetypes", "badtemplate", "badfile", "emptytemplates"])), p=draw(plate()), size=draw(st.sampled_from([0, 0, 2])))


def check_bad(case, ctx):
    from redrock.external.boss import rrboss
    tmp = tempfile.mkdtemp(prefix="c26-")
    p = dict(case["p"], lo=3.6, npix=100)
    c = dict(form="one", ps=[p], nexp={}, missing=False, things=1)
    names, data = write(c, tmp)
    tdir = os.path.join(tmp, "templates")
    os.mkdir(tdir)
    world.write_template(dict(spectype="GALAXY", subtype="", seed=1, nbasis=2, nz=8, obs_lo=3300., obs_hi=10300., dw=12., zlo=0, zhi=0.2), os.path.join(tdir, "rrtemplate-0.fits"))
    zb, de = os.path.join(tmp, "z.fits"), os.path.join(tmp, "d.h5")
    for q in (zb, de):
        open(q, "w").write("old")
    k = case["kind"]
    opt = ["--spplate"] + (names if k != "nofile" else [os.path.join(tmp, "none.fits")]) + ["-t", tdir if k != "notemplates" else os.path.join(tmp, "none"), "--mp", "1"]
    if k == "badtemplate":
        open(os.path.join(tdir, "rrtemplate-0.fits"), "wb").write(b"junk")
    if k == "badfile":
        b = open(names[0], "rb").read()
        open(names[0], "wb").write(b[:2880 * max(1, len(b) // 2880 // 3)])
    if k == "emptytemplates":
        os.mkdir(os.path.join(tmp, "e"))
        opt[opt.index("-t") + 1] = os.path.join(tmp, "e")
    if k.endswith("archetypes"):
        opt += ["--archetypes", os.path.join(tmp, "a")]
        if k == "emptyarchetypes":
            os.makedirs(os.path.join(tmp, "a", "v1"))
    if k != "noout":
        opt += ["--zbest", zb, "-o", de]
    if k == "both":
        opt += ["--targetids", str(data[0][0]), "-n", "1"]
    if k == "noids":
        opt += ["--targetids", "17"]
    ended = False
    try:
        if case["size"]:
            fakempi.World(case["size"]).run(lambda comm: rrboss(list(opt), comm=comm))
        else:
            rrboss(list(opt))
    except fakempi.Deadlock:
        raise
    except BaseException as e:
        if isinstance(e, KeyboardInterrupt):
            raise
        ended = not (isinstance(e, SystemExit) and e.code in (0, None))
    require(ended, "a run with %s ends as if it had succeeded", k)
    for q in (zb, de):
        require(open(q, "rb").read() == b"old", "a refused run changes %s", os.path.basename(q))
    ctx.label(k)
    ctx.nontrivial()


def warm():
    import redrock.external.boss  # noqa
    from checks.c01 import warm as w
    w()


FACETS = [Facet("read", cases, check, quick=320, thorough=5000, shards=8, setup=warm,
                rule="1-3 plates or the frames of 1-2 plates x fibers x selection by ID or fiber x masks x dispersions, every spectrum compared with "
                     "the files; non-trivial = several targets"),
          Facet("run", run_cases, check_run, quick=200, thorough=3000, shards=8, setup=warm,
                rule="rrboss on such files x templates x options x process counts, both outputs compared with a direct fit; non-trivial = several targets"),
          Facet("refused", bad_cases, check_bad, quick=80, thorough=500, shards=4, setup=warm,
                rule="ten kinds of unusable invocations; non-trivial = always")]
