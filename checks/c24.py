"""C24: rrdesi from input files to output files."""
import os, sys, tempfile, shutil
import numpy as np
import scipy.sparse
from hypothesis import strategies as st
from vlib.core import Facet, require, fail
from vlib import world, fakempi, procs
from vlib import desifiles as D
from checks.c16 import prior_file

ASSUMPTIONS = ["inputs and templates are synthetic; the fit itself is judged by C01-C16, here it is run on independently read and cleaned spectra",
               "MPI is emulated"]
ZW = dict(SKY=1, LITTLE_COVERAGE=2, UNPLUGGED=2**7, BAD_TARGET=2**8, NODATA=2**9, POORDATA=2**11)
FM = dict(UNASSIGNED=1, BROKEN=4, BADPOS=2**9, POORPOS=2**10, BADAMP=2**22 | 2**23 | 2**24)


@st.composite
def cases(draw, plain=False):
    """plain: without the options which need files or templates of their own."""
    fs = draw(D.filespecs(nfmin=1, nfmax=2, ntmax=3, npix=(24, 40), expmax=2))
    ts = draw(world.template_specs(1, 3, nzmin=10, nzmax=16, nbmax=3))
    ids = [t["tid"] for s in fs for t in s["targets"]]
    sel = draw(st.sampled_from(["all", "all", "all", "ids", "range"] + ["first"] * (not plain)))
    out = draw(st.sampled_from(["o", "od", "odm", "om", "d", "dm"]))
    return dict(files=fs, ts=ts, out=out, allspec=draw(st.booleans()), skymask=draw(st.booleans()), nminima=draw(st.sampled_from([None, 1, 2, 4])),
                npoints=draw(st.sampled_from([None, 9])), neg=draw(st.sampled_from([None, 3.0, 1e6])),
                ids=draw(st.lists(st.sampled_from(ids), min_size=1, max_size=4, unique=True)) if sel == "ids" else None,
                n=draw(st.sampled_from([1, 1, 1 if plain else 2])) if sel == "range" else None, first=draw(st.sampled_from([None, 0, 0 if plain else 1])) if sel in ("range", "first") else None,
                size=draw(st.sampled_from([0, 0, 0, 2, 3])), mp=draw(st.sampled_from([1, 1, 1, 2])), clobber=draw(st.booleans()),
                tform=draw(st.sampled_from(["dir", "list", "txt"])), sub=draw(st.booleans()), lines=draw(st.booleans()),
                prior=None if plain else draw(st.sampled_from([None, None, None] + PRIORS)), seed=draw(st.integers(0, 2**31)), cosm=None if plain else draw(st.sampled_from([None, None, 0.3, 2.0])),
                scan=not plain and draw(st.integers(0, 3)) == 0, noz=not plain and draw(st.integers(0, 3)) == 0 and all(t["spectype"] in "GALAXY QSO STAR" for t in ts),
                zs=draw(st.lists(st.booleans(), min_size=3, max_size=3)), ncpu=draw(st.integers(0, 5)) == 0)


PRIORS = ["gaussian", "lorentzien", "tophat"]


def zscan_options(case):
    """--zscan-* for templates which have no redshifts: as drawn, or left to the documented default where this is short."""
    if not case["noz"]:
        return {}
    g = np.random.default_rng([case["seed"], 1])
    out = dict(galaxy=(0.1 + 0.2 * g.uniform(), 0.5 + 0.4 * g.uniform(), g.uniform(8e-3, 2e-2)), qso=(0.6 + 0.3 * g.uniform(), 1.5 + 0.8 * g.uniform(), g.uniform(8e-3, 2e-2)),
               star=(-0.0015 * g.uniform(0.3, 1), 0.0015 * g.uniform(0.3, 1), g.uniform(1e-4, 2e-4)))
    if case["zs"][0]:
        del out["star"]
    return {k: "%.4f,%.4f,%.5f" % v for k, v in out.items()}


def template_files(case, tmp):
    paths = []
    for k, s in enumerate(case["ts"]):
        p = os.path.join(tmp, "rrtemplate-%02d.fits" % k)
        world.write_template(s, p, with_z=not case.get("noz"))
        paths.append(p)
    with open(os.path.join(tmp, "templates-default.txt"), "w") as f:
        f.write("# templates\n" + "".join(os.path.basename(p) + "\n" for p in paths))
    arg = dict(dir=[tmp], list=paths, txt=[os.path.join(tmp, "templates-default.txt")])[case["tform"]]
    return paths, arg


def skylines(w):
    return ((w >= 5572) & (w <= 5582)) | ((w >= 9792) & (w <= 9795))


def targets(case, want, per, ts):
    from redrock.targets import Target, Spectrum
    out = []
    for tid in want:
        sp = []
        for b, w, f, v, R, near in D.exposures(case["files"], tid, case["neg"] or 5, per, ts):
            h = R.shape[0] // 2
            s = Spectrum(w.copy(), f, v.copy(), scipy.sparse.dia_matrix((R, np.arange(h, -h - 1, -1)), shape=(len(w),) * 2), band=b)
            s.ivar = v.copy()
            sp.append(s)
        t = Target(tid, sp)
        if not case["allspec"]:
            t.compute_coadd(cosmics_nsig=case.get("cosm") or 0)
        if case["skymask"]:
            for s in t.spectra:
                s.ivar[skylines(s.wave)] = 0
        out.append(t)
    return out


def extra_files(case, tmp, want, ts, T):
    """A prior file and an earlier scan (of other data, so that it makes a difference)."""
    from redrock.results import write_zscan
    out = {}
    g = np.random.default_rng([case["seed"], 2])
    if case["prior"]:
        out["priors"] = os.path.join(tmp, "priors.fits")
        prior_file(out["priors"], want, ts, case["prior"], g)
    if case["scan"]:
        scan, z = world.run_zfind(T, ts, nminima=1)
        for i in want:
            for t in ts:
                x = scan[i][t.full_type]["zchi2"]
                scan[i][t.full_type]["zchi2"] = x * (1 + 0.3 * np.sin(g.uniform(0, 6) + g.uniform(1, 9) * np.linspace(0, 1, len(x)))) + 1
        out["chi2_scan"] = os.path.join(tmp, "earlier.h5")
        write_zscan(out["chi2_scan"], scan, z)
    return out


def check(case, ctx):
    from redrock.external.desi import rrdesi
    from redrock.templates import Template
    from redrock.results import read_zscan
    from astropy.io import fits
    from astropy.table import Table
    tmp = tempfile.mkdtemp(prefix="c24-")
    tdir = os.path.join(tmp, "templates")
    os.mkdir(tdir)
    tpaths, targ = template_files(case, tdir)
    zs = zscan_options(case)
    ts = [Template(p, **{"zscan_" + k: v for k, v in zs.items()}) for p in tpaths]
    if case["noz"]:
        # the documented meaning of the ranges
        for t in ts:
            a, b, d = (float(x) for x in zs.get(t.template_type.lower(), "-0.002,0.00201,4e-5").split(","))
            u = (lambda x: np.log10(1 + x)) if t.template_type != "STAR" else (lambda x: x)
            x = u(np.asarray(t.redshifts))
            require(abs(t.redshifts[0] - a) < 1e-9 and u(b) - d * (1 + 1e-6) <= x[-1] < u(b) + 1e-9 * d + 1e-12 and np.allclose(np.diff(x), d, rtol=1e-6), "redshifts of %s for %s", t.full_type, zs)
    inp = []
    for k, s in enumerate(case["files"]):
        inp.append(os.path.join(tmp, "in%d.fits" % k))
        D.write(inp[-1], s, ts)
    od = os.path.join(tmp, "a", "b") if case["sub"] else tmp
    out = {k: os.path.join(od, n) for k, n in (("o", "redrock.fits"), ("d", "rrdetails.h5"), ("m", "rrmodel.fits")) if k in case["out"]}
    if case["clobber"]:
        os.makedirs(od, exist_ok=True)
        for p in out.values():
            open(p, "w").write("old")
    opt = ["-i"] + inp + ["-t"] + targ + ["--ncpu" if case["ncpu"] else "--mp", str(case["mp"])]
    opt += ["--zscan-%s=%s" % x for x in zs.items()]
    opt += [x for k, o in (("o", "-o"), ("d", "-d"), ("m", "--model")) if k in out for x in (o, out[k])]
    opt += ["--allspec"] * case["allspec"] + ["--no-skymask"] * (not case["skymask"])
    for k, o in (("nminima", "--nminima"), ("npoints", "--zminfit-npoints"), ("neg", "--negflux-nsig"), ("first", "--mintarget"), ("n", "-n"), ("cosm", "--cosmics-nsig")):
        if case[k] is not None:
            opt += [o, str(case[k])]
    if case["ids"] is not None:
        opt += ["--targetids", ",".join(str(i) for i in case["ids"])]
    want, per = D.select(case["files"], case["ids"], case["first"], case["n"])
    if not want or any((case["first"] or 0) + (case["n"] or 0) > len(D.file_targets(f)) for f in case["files"]):
        return              # a range beyond a file is refused, see below
    kw = dict(nminima=case["nminima"] or 3)
    if case["npoints"]:
        kw["zminfit_npoints"] = case["npoints"]
    T = targets(case, want, per, ts)
    extra = extra_files(case, tmp, want, ts, T)
    kw.update(extra)
    opt += [x for k, p in sorted(extra.items()) for x in ("--" + k.replace("_", "-"), p)]
    inp = inp + list(extra.values())
    inbytes = [open(p, "rb").read() for p in inp + tpaths]
    if case["size"]:
        fakempi.World(case["size"]).run(lambda comm: rrdesi(list(opt), comm=comm))
    elif case["mp"] > 1:
        procs.run(lambda: rrdesi(list(opt)), idle=30, total=600)
    else:
        rrdesi(list(opt))
    require([open(p, "rb").read() for p in inp + tpaths] == inbytes, "rrdesi modifies its input files")
    # the answer for the independently read targets
    scan, z = world.run_zfind(T, ts, **kw)
    # DESI flags
    status, objtype = {}, {}
    for s, p in zip(case["files"], per):
        for t in s["targets"]:
            if t["tid"] in p:
                objtype[t["tid"]] = t["objtype"]
                fs = [t["fs"][e % len(t["fs"])] for e in range(1 if s["coadded"] else t["nexp"])]
                status[t["tid"]] = fs
    if case["files"][0]["coadded"]:
        status = {i: v[0] for i, v in status.items()}
    else:
        from desispec.coaddition import coadd_fibermap, use_for_coadd
        for i, v in status.items():
            good = [x for x in v if any(use_for_coadd(np.array([x]), b)[0] for b in "brz")]
            status[i] = int(np.bitwise_and.reduce(good)) if good else int(np.bitwise_or.reduce(v))
    tid = np.asarray(z["targetid"])
    zw = np.asarray(z["zwarn"]).astype(np.int64)
    over = np.zeros(len(z), bool)
    for k, i in enumerate(tid):
        s, o = status[i], objtype[i]
        bad = o not in ("TGT", "SKY")
        if s & FM["POORPOS"]:
            zw[k] |= ZW["POORDATA"]
        if s & (FM["BADPOS"] | FM["BROKEN"] | FM["UNASSIGNED"]) or bad:
            zw[k] |= ZW["NODATA"]
            over[k] = True
        if s & FM["BROKEN"]:
            zw[k] |= ZW["UNPLUGGED"]
        if o == "SKY":
            zw[k] |= ZW["SKY"]
        if s & FM["BADAMP"]:
            zw[k] |= ZW["LITTLE_COVERAGE"]
        if bad:
            zw[k] |= ZW["BAD_TARGET"]
    z["zwarn"] = zw
    z["spectype"] = ["GALAXY" if o else x for o, x in zip(over, z["spectype"])]
    z["subtype"] = ["" if o else x for o, x in zip(over, z["subtype"])]
    z["coeff"][over] = 0
    z["z"][over] = 0
    z["fitmethod"] = ["NONE" if o else x for o, x in zip(over, z["fitmethod"])]
    best = z[z["znum"] == 0]
    left = [f for f in os.listdir(od) if "tmp" in f]
    require(not left, "temporary files left behind: %s", left)
    for k in "odm":
        if k not in out:
            require(not any(f.startswith({"o": "redrock", "d": "rrdetails", "m": "rrmodel"}[k]) for f in os.listdir(od)), "an output which was not asked for")

    def same(a, b, what, cast=None):
        a, b = np.asarray(a), np.asarray(b)
        if cast:
            b = b.astype(cast)
        if a.dtype.kind in "SU":
            a, b = np.char.strip(a.astype(str)), np.char.strip(b.astype(str))
        if a.ndim == 2:
            n = max(a.shape[1], b.shape[1])
            a, b = [np.pad(x, ((0, 0), (0, n - x.shape[1]))) for x in (a, b)]
        ok = np.array_equal(a, b, equal_nan=a.dtype.kind == "f") if (case["size"] == 0) or a.dtype.kind in "SUib" else \
            np.allclose(a, b, rtol=1e-5, atol=1e-9 * np.max(np.abs(b), initial=0, where=np.isfinite(b)), equal_nan=True)
        require(ok, "%s is %s, expected %s", what, a.tolist() if a.size < 12 else a[:3], b.tolist() if b.size < 12 else b[:3])

    def header(h):
        names = [t.full_type for t in ts]
        got = [h["TEMNAM%02d" % i] for i in range(len(ts))]
        require(sorted(got) == sorted(names) and "TEMNAM%02d" % len(ts) not in h, "template names in the header: %s", got)
        for i, n in enumerate(got):
            t = ts[names.index(n)]
            require(h["TEMVER%02d" % i].strip() == t.version and h["TEMFIL%02d" % i] == os.path.basename(t.filename), "template version or file in the header")
        require(h["SPGRPVAL"] == case["files"][0]["oseed"] % 10000 and h["SURVEY"] == "main", "input keywords in the header")

    cols = dict(TARGETID="targetid", CHI2="chi2", COEFF="coeff", Z="z", ZERR="zerr", ZWARN="zwarn", NPIXELS="npixels", SPECTYPE="spectype",
                SUBTYPE="subtype", NCOEFF="ncoeff", DELTACHI2="deltachi2", FITMETHOD="fitmethod")
    dt = dict(TARGETID="i8", CHI2="f4", COEFF="f4", Z="f8", ZERR="f4", ZWARN="i4", NPIXELS="i4", NCOEFF="i2", DELTACHI2="f4")

    def redshifts(hdu):
        rr = hdu.data
        require(set(rr.names) == set(cols), "columns of REDSHIFTS: %s", rr.names)
        require(rr["TARGETID"].tolist() == want, "targets of the output are %s, of the input %s", rr["TARGETID"].tolist(), want)
        for C, c in cols.items():
            same(rr[C], best[c], "column %s" % C, dt.get(C))
            if C in dt:
                require(rr[C].dtype.newbyteorder("=") == np.dtype(dt[C]), "column %s has type %s", C, rr[C].dtype)
        return rr

    if "o" in out:
        with fits.open(out["o"]) as fx:
            require([h.name for h in fx] == ["PRIMARY", "REDSHIFTS", "FIBERMAP", "EXP_FIBERMAP", "TSNR2"], "HDUs %s", [h.name for h in fx])
            header(fx[0].header)
            header(fx[1].header)
            redshifts(fx[1])
            rows = [i for p in per for i in p]
            require(fx["FIBERMAP"].data["TARGETID"].tolist() == rows == want, "FIBERMAP rows do not match REDSHIFTS rows")
            require(fx["TSNR2"].data["TARGETID"].tolist() == rows, "TSNR2 rows do not match REDSHIFTS rows")
            require(set(fx["EXP_FIBERMAP"].data["TARGETID"].tolist()) == set(rows), "EXP_FIBERMAP targets")
            require(fx["FIBERMAP"].data["COADD_FIBERSTATUS"].tolist() == [status[i] for i in rows], "COADD_FIBERSTATUS")
            ra = {t["tid"]: t["seed"] % 3600 / 10. for s in case["files"] for t in s["targets"]}
            require(fx["FIBERMAP"].data["TARGET_RA"].tolist() == [ra[i] for i in rows], "FIBERMAP columns")
            require(fx["FIBERMAP"].header["FMKEY"] == case["files"][0]["oseed"] % 10000, "FIBERMAP keywords are not those of the first file")
    if "d" in out:
        scan2, z2 = read_zscan(out["d"])
        require([int(x) for x in dict.fromkeys(np.asarray(z2["targetid"]).tolist())] == want, "targets of the details file")
        for c in ("targetid", "znum", "z", "zwarn", "npixels", "spectype", "subtype", "ncoeff"):
            same(z2[c], z[c], "details column %s" % c)
        for c in ("chi2", "zerr", "deltachi2", "coeff"):
            same(z2[c], z[c], "details column %s" % c, "f4")
        for i in want:
            for ft in scan[i]:
                same(scan2[i][ft]["zchi2"], scan[i][ft]["zchi2"], "details zchi2", "f4")
                same(scan2[i][ft]["redshifts"], scan[i][ft]["redshifts"], "details redshifts")
    if "m" in out:
        with fits.open(out["m"]) as fx:
            header(fx[0].header)
            rr = redshifts(fx["REDSHIFTS"])
            waves = {}
            for s, p in zip(case["files"], per):
                if p:
                    waves.update(D.waves(s["npix"], s["bands"]))
            require(set(h.name for h in fx) == {"PRIMARY", "REDSHIFTS"} | {b.upper() + x for b in waves for x in ("_WAVELENGTH", "_MODEL")}, "model HDUs")
            tt = {(t.template_type, t.sub_type): t for t in ts}
            for b, w in waves.items():
                require(np.array_equal(fx[b.upper() + "_WAVELENGTH"].data, w), "model wavelengths")
                m = fx[b.upper() + "_MODEL"].data
                require(m.shape == (len(want), len(w)), "model shape")
                for k, t in enumerate(T):
                    if rr["COEFF"][k].any():
                        s = [x for x in t.spectra if x.band == b][-1]
                        ref = tt[rr["SPECTYPE"][k].strip(), rr["SUBTYPE"][k].strip()].eval(np.asarray(rr["COEFF"][k], "f4"), w, rr["Z"][k], R=s.Rcsr)
                    else:
                        ref = np.zeros(len(w))
                    require(np.allclose(m[k], ref, rtol=1e-4, atol=1e-5 * max(np.max(np.abs(ref)), 1e-30)), "model of target %d band %s", want[k], b)
    for k in ("prior", "cosm", "scan", "noz"):
        ctx.label("option " + k, bool(case[k]))
    ctx.label("fibermap flags", bool(over.any()))
    ctx.label("selection", case["ids"] is not None or case["n"] is not None)
    ctx.label("MPI", case["size"] > 0)
    ctx.label("model file", "m" in out)
    ctx.label("several files", len(inp) > 1)
    ctx.nontrivial(len(want) > 1 and not over.all())


def warm():
    import redrock.external.desi  # noqa
    from checks.c01 import warm as w
    w()


# ---------------------------------------------------------------- refused runs
@st.composite
def bad_cases(draw):
    fs = draw(D.filespecs(nfmin=1, nfmax=1, ntmax=2, npix=(24, 30), expmax=1))
    ts = draw(world.template_specs(1, 1, nzmin=8, nzmax=10, nbmax=2))
    return dict(files=fs, ts=ts, how=draw(st.sampled_from(["no output", "ids and range", "no file", "corrupt file", "no templates", "bad template",
                                                           "truncated file", "beyond", "not writable", "empty templates", "templates elsewhere",
                                                           "empty archetypes", "archetypes elsewhere", "no archetypes", "bad archetype"])), size=draw(st.sampled_from([0, 0, 2])))


def check_bad(case, ctx):
    from redrock.external.desi import rrdesi
    from redrock.templates import Template
    tmp = tempfile.mkdtemp(prefix="c24-")
    tdir = os.path.join(tmp, "templates")
    os.mkdir(tdir)
    tpaths, targ = template_files(dict(case, tform="list"), tdir)
    ts = [Template(p) for p in tpaths]
    inp = os.path.join(tmp, "in.fits")
    D.write(inp, case["files"][0], ts)
    out = os.path.join(tmp, "out", "redrock.fits")
    os.mkdir(os.path.dirname(out))
    open(out, "w").write("old")
    how = case["how"]
    opt = ["--mp", "1", "-i", inp, "-t"] + targ + ["-o", out]
    if how == "no output":
        opt = opt[:-2]
    elif how == "ids and range":
        opt += ["--targetids", str(case["files"][0]["targets"][0]["tid"]), "-n", "1"]
    elif how == "no file":
        opt[3] = os.path.join(tmp, "missing.fits")
    elif how == "corrupt file":
        b = open(inp, "rb").read()
        open(inp, "wb").write(b.replace(b"B_IVAR", b"B_IVXR").replace(b"R_IVAR", b"R_IVXR"))
        if b == open(inp, "rb").read():
            return
    elif how == "truncated file":
        b = open(inp, "rb").read()
        open(inp, "wb").write(b[:len(b) // 3 // 2880 * 2880])
    elif how == "no templates":
        opt[5:6] = [os.path.join(tmp, "nowhere")]
    elif how in ("empty templates", "templates elsewhere"):
        opt[5:6] = [os.path.join(tmp, "e")]
        os.mkdir(opt[5])
        if how != "empty templates":
            shutil.copy(tpaths[0], os.path.join(opt[5], "galaxy.fits"))
    elif how == "no archetypes":
        opt += ["--archetypes", os.path.join(tmp, "nowhere")]
    elif how in ("empty archetypes", "archetypes elsewhere", "bad archetype"):
        adir = os.path.join(tmp, "e")
        os.makedirs(os.path.join(adir, "v1"))
        if how == "empty archetypes":
            os.rmdir(os.path.join(adir, "v1"))
        zg = ts[0].redshifts
        a = dict(spectype=ts[0].template_type, seed=1, narch=2, wmin=3000 / (1 + zg[-1]), wmax=11000 / (1 + zg[0]), loglam=False, nwave=300, dtype="f8", subs=[""], version="1")
        if how == "archetypes elsewhere":
            world.write_archetype(a, os.path.join(adir, "v1", "rrarchetype-x.fits"))
        if how == "bad archetype":
            open(os.path.join(adir, "rrarchetype-x.fits"), "wb").write(b"junk")
        opt += ["--archetypes", adir]
    elif how == "bad template":
        open(tpaths[0], "wb").write(b"junk")
    elif how == "beyond":
        opt += ["-n", "50"]
    elif how == "not writable":
        opt[-1] = os.path.join(inp, "x", "redrock.fits")

    if case["size"] and how in ("no output", "ids and range", "empty archetypes", "no archetypes"):
        return              # these call Abort of the communicator
    try:
        if case["size"]:
            fakempi.World(case["size"]).run(lambda comm: rrdesi(list(opt) + ["--no-mpi-abort"], comm=comm))
        else:
            rrdesi(list(opt))
    except SystemExit as e:
        require(e.code not in (0, None), "%s: exits with success", how)
    except Exception as e:
        pass
    else:
        fail("%s: rrdesi returns as if it had succeeded", how)
    require(open(out).read() == "old" and os.listdir(os.path.dirname(out)) == ["redrock.fits"], "%s: a failed run touches the output", how)
    ctx.nontrivial()


FACETS = [Facet("run", cases, check, quick=320, thorough=6000, shards=8, setup=warm,
                rule="1-2 spectra/coadd files x 1-3 template files x options (allspec, sky mask, ids, ranges, minima, points, negative-flux and "
                     "cosmics thresholds, prior file, earlier scan, redshift ranges of templates without, outputs, existing outputs, multiprocessing, emulated MPI); every column, HDU, keyword and model compared; "
                     "non-trivial = several targets, not all overridden"),
          Facet("refused", bad_cases, check_bad, quick=120, thorough=800, shards=4, setup=warm,
                rule="fifteen kinds of unusable invocations or inputs; non-trivial = refused, previous output untouched")]
