"""C30: runs in archetype mode."""
import os, shutil, tempfile
import numpy as np
from hypothesis import strategies as st
from vlib.core import Facet, require, fail
from vlib import world, fakempi, procs, oracle
from vlib import desifiles as D

ASSUMPTIONS = ["archetype, template and spectra files are synthetic; the fit of one minimum is judged by C29, its redshift by C11",
               "targets with exactly tied chi2 values are compared without order", "MPI is emulated"]
NEG, LITTLE, NODATA, SMALL = 8, 2, 512, oracle.SMALL_DELTA_CHI2


@st.composite
def archs(draw, ts):
    """Archetypes for some of the template types, now and then for another type."""
    types = list(dict.fromkeys(t["spectype"] for t in ts))
    pick = draw(st.lists(st.sampled_from(types), min_size=1, max_size=len(types), unique=True)) if draw(st.booleans()) else types
    pick = pick + [x for x in ("GALAXY", "QSO", "STAR") if x not in types and draw(st.integers(0, 4)) == 0]
    out = []
    for sp in pick:
        zg = world.default_zgrid(sp, 10)
        out.append(draw(world.arch_specs(sp, zg[0], zg[-1], namax=4)))
    return out


@st.composite
def options(draw, ncam):
    nn = draw(st.sampled_from([None, None, None, 2, 3]))
    return dict(percam=draw(st.booleans()), nleg=draw(st.integers(0, 3)), prior=draw(st.sampled_from([None, 0.1, 0.1, 2.0])), nn=nn)


@st.composite
def cases(draw):
    ts = draw(world.template_specs(1, 3, nzmin=8, nzmax=14, nbmax=4))
    ncam = draw(st.sampled_from([1, 2, 3]))
    g = draw(world.target_specs(1, 3, ncam=(ncam,), npixmin=16, npixmax=30, kinds=["normal"] * 5 + ["noise", "nodata", "few"]))
    return dict(ts=ts, a=draw(archs(ts)), g=g, o=draw(options(ncam)), nminima=draw(st.sampled_from([1, 2, 4, 9])), size=draw(st.sampled_from([0, 0, 0, 2, 3])),
                mp=draw(st.sampled_from([1, 1, 1, 1, 2])), perm=draw(st.permutations(list(range(len(ts))))))


def load(specs, tmp):
    from redrock.archetypes import All_archetypes
    for a in specs:
        world.write_archetype(a, os.path.join(tmp, "rrarchetype-%s.fits" % a["spectype"].lower()))
    return All_archetypes(archetypes_dir=tmp).archetypes


def kwargs(o, ncam):
    return dict(per_camera=o["percam"], deg_legendre=o["nleg"], prior_sigma=o["prior"], n_nearest=o["nn"], ncamera=ncam)


def pad(a, shape):
    a = np.asarray(a, float).reshape(-1) if len(shape) == 1 else np.asarray(a, float)
    return np.pad(a, [(0, n - m) for n, m in zip(shape, a.shape)])


def check(case, ctx):
    from redrock.fitz import fitz
    tmp = tempfile.mkdtemp(prefix="c30-")
    A = load(case["a"], tmp)
    ts = [world.make_template(s) for s in case["ts"]]
    ids = [world.BIG + 900 - i for i in range(len(case["g"]))]
    mk = lambda: [world.make_target(s, i, ts) for s, i in zip(case["g"], ids)]
    o, ncam = case["o"], case["g"][0]["ncam"]
    T = mk()
    kw = dict(kwargs(o, ncam), nminima=case["nminima"])
    tt = [ts[i] for i in case["perm"]]
    if case["size"]:
        tab = fakempi.World(case["size"]).run(lambda comm: world.run_zfind(mk() if comm.rank == 0 else [], tt, comm=comm, archetypes=A, **kw))[0][1]
    elif case["mp"] > 1:
        tab = procs.run(lambda: world.run_zfind(T, tt, archetypes=A, mp_procs=case["mp"], **kw)[1], idle=30, total=600)
    else:
        tab = world.run_zfind(T, tt, archetypes=A, **kw)[1]
    T = mk()
    scan, _ = world.run_zfind(mk(), ts, nminima=1)
    require(list(dict.fromkeys(tab["targetid"])) == ids, "targets of the table: %s", list(dict.fromkeys(tab["targetid"])))
    leg = (ncam, o["nleg"]) if o["percam"] else (o["nleg"],)
    fkw = {k: v for k, v in kw.items() if k != "ncamera"}
    nontriv = False
    for tid, tg in zip(ids, T):
        cand = []
        for t in ts:
            a = A.get(t.template_type)
            s = scan[tid][t.full_type]
            r = fitz(s["zchi2"] + s["penalty"], t.redshifts, tg, t, archetype=a, **fkw)
            for i in range(len(r["z"])):
                d = {k: r[k][i] for k in r}
                d["t"] = t
                d["arch"] = a is not None
                d["chi2"] = float(r["chi2"][i, 0])
                zw = int(r["zwarn"][i, 0])
                c = np.asarray(r["coeff"][i], float)
                npix = int(r["npixels"][i, 0])
                d["flex"] = 0
                if d["arch"] and not (c > 0).all():
                    d["flex"] = NEG
                zw |= NODATA * (npix == 0) | LITTLE * (npix < 10 * len(c))
                d["zwarn"] = zw
                cand.append(d)
        rows = tab[np.asarray(tab["targetid"]) == tid]
        require(list(rows["znum"]) == list(range(len(rows))), "znum %s", list(rows["znum"]))
        ch = [c["chi2"] for c in cand]
        if len(set(ch)) < len(ch):
            ctx.label("tied")
            continue
        if any(c["flex"] for c in cand):
            # whether a fit without amplitude is flagged decides the order; identify the rows by chi2
            ctx.label("no amplitude")
            exp = None
        else:
            exp = []
            for sp in set(t.template_type for t in ts):
                c = sorted([x for x in cand if x["t"].template_type == sp], key=lambda x: (bool(x["zwarn"] & oracle.BADFIT), x["chi2"]))
                exp += c[:case["nminima"]]
            exp.sort(key=lambda x: (bool(x["zwarn"] & oracle.BADFIT), x["chi2"]))
            require(len(exp) == len(rows), "%d rows, expected %d", len(rows), len(exp))
        for i, row in enumerate(rows):
            x = exp[i] if exp else cand[int(np.argmin(np.abs(np.array(ch) - row["chi2"])))]
            what = "target %d row %d" % (tid, i)
            require(row["chi2"] == x["chi2"] or abs(row["chi2"] - x["chi2"]) < 1e-9 * abs(x["chi2"]), "%s: chi2 %r, expected %r", what, row["chi2"], x["chi2"])
            sp, sub = x["t"].template_type, x["t"].sub_type
            psp, psub = sp, sub
            if x["arch"]:
                sub = str(x["fulltype"][0]).split(":::")[1]
            require((row["spectype"], row["subtype"]) == (sp, sub), "%s: type %s %s, expected %s %s", what, row["spectype"], row["subtype"], sp, sub)
            require(row["fitmethod"] == ("ARCH" if x["arch"] else x["t"].method), "%s: method %s", what, row["fitmethod"])
            for c in ("z", "zerr", "npixels"):
                require(np.isclose(row[c], x[c][0], rtol=1e-9, atol=0, equal_nan=True), "%s: %s is %r, expected %r", what, c, row[c], x[c][0])
            require(np.allclose(row["zzchi2"], x["zzchi2"], rtol=1e-9, atol=1e-9) and np.allclose(row["zz"], x["zz"], rtol=1e-12, atol=0), "%s: zz, zzchi2", what)
            zw, ez = int(row["zwarn"]) & ~SMALL, x["zwarn"]
            require(zw == ez or (zw ^ ez) == x["flex"], "%s: zwarn %d, expected %d", what, zw, ez)
            if x["flex"] and o["nn"] is None and set(t.template_type for t in ts) <= set(A):
                require(zw & NEG, "%s: an archetype without amplitude is not flagged", what)
            n = len(x["coeff"])
            require(int(row["ncoeff"]) == n, "%s: ncoeff %s, expected %d", what, row["ncoeff"], n)
            c = np.atleast_1d(np.asarray(row["coeff"], float))
            require(len(c) >= n and np.allclose(c[:n], x["coeff"], rtol=1e-9, atol=0) and not c[n:].any(), "%s: coeff %s, expected %s", what, c, x["coeff"])
            for k in ("legcoeff", "pca_coeff", "pca_spectype", "pca_subtype"):
                require(k in tab.colnames, "no column %s", k)
            l = np.asarray(row["legcoeff"], float)
            want = pad(x["legcoeff"], leg) if x["arch"] else np.zeros(leg)
            shapes = [leg] if any(q["arch"] for q in cand) else [leg, (0,)]
            require(l.shape in shapes and (not l.size or np.allclose(l, want, rtol=1e-9, atol=0)), "%s: legcoeff %s, expected %s", what, l, want)
            p = np.atleast_1d(np.asarray(row["pca_coeff"], float))
            e = np.asarray(x["pca_coeff"] if x["arch"] else x["coeff"], float)
            require(len(p) >= len(e) and np.allclose(p[:len(e)], e, rtol=1e-9, atol=0) and not p[len(e):].any(), "%s: pca_coeff %s, expected %s", what, p, e)
            require((row["pca_spectype"], row["pca_subtype"]) == (psp, psub), "%s: pca type %s %s, expected %s %s", what, row["pca_spectype"], row["pca_subtype"], psp, psub)
        nontriv = nontriv or len(set(x["arch"] for x in cand)) > 1 or len(ts) > 1
        ctx.label("types with and without", len(set(x["arch"] for x in cand)) > 1)
        ctx.label("several types", len(set(x["t"].template_type for x in cand)) > 1)
    # the evaluated best models are the fitted ones
    best = tab[tab["znum"] == 0]
    for c in list(best.colnames):
        best.rename_column(c, c.upper())
    models = world.dist(T, ts)[0].eval_models(best, {(t.template_type, t.sub_type): t for t in ts}, A, o["nleg"])
    for tg, m, row in zip(T, models, best):
        if row["NPIXELS"] == 0:
            continue
        x = world.model_chi2(tg, lambda q: m if q is tg else q.eval_model(row, {(t.template_type, t.sub_type): t for t in ts}, A, o["nleg"]))
        scale = sum(float(np.sum(s.ivar * s.flux**2)) for s in tg.spectra)
        if row["FITMETHOD"] == "ARCH":
            require(abs(x - row["CHI2"]) <= 1e-7 * scale + 1e-6 * x, "the evaluated model of target %d has chi2 %r, the table %r", tg.id, x, row["CHI2"])
    ctx.label("parallel", bool(case["size"]) or case["mp"] > 1)
    ctx.nontrivial(nontriv)


# ---------------------------------------------------------------- rrdesi --archetypes
@st.composite
def run_cases(draw):
    fs = draw(D.filespecs(nfmin=1, nfmax=1, ntmax=3, npix=(24, 40), expmax=2))
    if draw(st.integers(0, 3)):
        for f in fs:
            for t in f["targets"]:
                t["fs"], t["objtype"] = [0], "TGT"
    ts = draw(world.template_specs(1, 3, nzmin=10, nzmax=16, nbmax=3))
    o = dict(percam=draw(st.sampled_from([None, None, True, False])), nleg=draw(st.sampled_from([None, None, 0, 1, 3])), prior=draw(st.sampled_from([None, None, 0, -1, 0.5])),
             nn=draw(st.sampled_from([None, None, 2, 3])), off=False)
    if draw(st.integers(0, 4)) == 0:
        o.update(off=True, nn=None)
    a = draw(archs(ts))
    return dict(files=fs, ts=ts, a=a, o=o, form=draw(st.sampled_from(["dir", "dir", "file", "plain"])) if len(a) == 1 else "dir", out=draw(st.sampled_from(["o", "odm", "om", "od"])),
                allspec=draw(st.booleans()), skymask=True, nminima=draw(st.sampled_from([None, 1, 3])), neg=None, size=draw(st.sampled_from([0, 0, 0, 2, 3])),
                mp=draw(st.sampled_from([1, 1, 1, 2])), tform="list", envdir=draw(st.booleans()))


def check_run(case, ctx):
    from redrock.external.desi import rrdesi
    from redrock.templates import Template
    from redrock.results import read_zscan
    from redrock.archetypes import All_archetypes
    from astropy.io import fits
    from checks import c24
    tmp = tempfile.mkdtemp(prefix="c30-")
    tdir, adir = os.path.join(tmp, "templates"), os.path.join(tmp, "arch")
    os.mkdir(tdir), os.mkdir(adir)
    tpaths, targ = c24.template_files(case, tdir)
    ts = [Template(p) for p in tpaths]
    load(case["a"], adir)
    arg = adir if case["form"] == "dir" else os.path.join(adir, os.listdir(adir)[0])
    if case["form"] == "plain":
        os.rename(arg, os.path.join(adir, "mine.fits"))
        arg = os.path.join(adir, "mine.fits")
    A = All_archetypes(archetypes_dir=arg).archetypes
    require(sorted(A) == sorted(a["spectype"] for a in case["a"]), "archetype types %s", sorted(A))
    inp = os.path.join(tmp, "in.fits")
    D.write(inp, case["files"][0], ts)
    out = {k: os.path.join(tmp, n) for k, n in (("o", "redrock.fits"), ("d", "rrdetails.h5"), ("m", "rrmodel.fits")) if k in case["out"]}
    o = case["o"]
    opt = ["-i", inp, "-t"] + targ + ["--mp", str(case["mp"]), "--archetypes", arg]
    opt += [x for k, q in (("o", "-o"), ("d", "-d"), ("m", "--model")) if k in out for x in (q, out[k])]
    opt += ["--allspec"] * case["allspec"] + ["--archetypes-no-legendre"] * o["off"]
    for k, q in (("percam", "--archetype-legendre-percamera"), ("nleg", "--archetype-legendre-degree"), ("prior", "--archetype-legendre-prior"), ("nn", "--archetype-nnearest")):
        if o[k] is not None:
            opt += [q + "=" + str(o[k])]
    if case["nminima"]:
        opt += ["--nminima", str(case["nminima"])]
    want, per = D.select(case["files"], None, None, None)
    if not want:
        return
    if case["size"]:
        fakempi.World(case["size"]).run(lambda comm: rrdesi(list(opt), comm=comm))
    elif case["mp"] > 1:
        procs.run(lambda: rrdesi(list(opt)), idle=30, total=600)
    else:
        rrdesi(list(opt))
    T = c24.targets(case, want, per, ts)
    ncam = len(set(s.wavehash for t in T for s in t.spectra))
    # documented defaults: two Legendre terms per camera, prior 0.1, nine minima
    nleg = 0 if o["off"] else 2 if o["nleg"] is None else o["nleg"]
    percam = False if o["off"] or ncam == 1 else True if o["percam"] is None else o["percam"]
    prior = 0.1 if o["prior"] is None else o["prior"] if o["prior"] > 0 else None
    prior = None if o["off"] else prior
    _, z = world.run_zfind(T, ts, archetypes=A, nminima=case["nminima"] or 9, per_camera=percam, deg_legendre=nleg, prior_sigma=prior, n_nearest=o["nn"], ncamera=ncam)
    best = z[z["znum"] == 0]
    bad = {t["tid"] for f in case["files"] for t in f["targets"] if t["objtype"] != "TGT" or any(t["fs"])}

    def same(a, b, what, cast=None):
        a, b = np.asarray(a), np.asarray(b)
        b = b.astype(cast) if cast else b
        if a.dtype.kind in "SU" or b.dtype.kind in "SU":
            ok = np.array_equal(np.char.strip(a.astype(str)), np.char.strip(b.astype(str)))
        else:
            n = len(b)
            a, b = [x.reshape(n, -1) for x in (a, b)]
            m = max(a.shape[1], b.shape[1])
            a, b = [np.pad(x, ((0, 0), (0, m - x.shape[1]))) for x in (a, b)]
            ok = np.allclose(a, b, rtol=1e-5, atol=1e-6 * np.max(np.abs(b), initial=0), equal_nan=True)
        require(ok, "%s is %s, expected %s", what, a.tolist(), b.tolist())

    def header(h):
        got = {h["ARCNAM%02d" % i]: (h["ARCVER%02d" % i], h.get("ARCFIL%02d" % i)) for i in range(len(A))}
        require("ARCNAM%02d" % len(A) not in h and sorted(got) == sorted(A), "archetypes in the header: %s", got)
        for n, (v, f) in got.items():
            require(v.strip() == A[n].version and (f is None or f == os.path.basename(A[n].filename)), "archetype version or file in the header: %s %s %s", n, v, f)

    def redshifts(rr):
        require(rr["TARGETID"].tolist() == want, "targets of the output are %s, of the input %s", rr["TARGETID"].tolist(), want)
        k = np.array([t not in bad for t in want])
        for c in ("Z", "ZERR", "CHI2", "DELTACHI2", "COEFF", "NCOEFF", "NPIXELS", "SPECTYPE", "SUBTYPE", "FITMETHOD", "LEGCOEFF", "PCA_COEFF", "PCA_SPECTYPE", "PCA_SUBTYPE", "ZWARN"):
            require(c in rr.names or (c == "LEGCOEFF" and nleg == 0), "no column %s", c)
            if c in rr.names and k.any():
                same(rr[c][k], best[c.lower()][k], "column %s" % c, "f4" if c in ("ZERR", "CHI2", "DELTACHI2", "COEFF") else None)
        for x in np.where(~k)[0]:
            if rr["FITMETHOD"][x].strip() == "NONE":
                require(rr["Z"][x] == 0 and not np.any(rr["COEFF"][x]) and rr["ZWARN"][x] & NODATA, "a bad target keeps a fit")
        return rr

    if "o" in out:
        with fits.open(out["o"]) as fx:
            header(fx[0].header)
            redshifts(fx["REDSHIFTS"].data)
            require(fx["FIBERMAP"].data["TARGETID"].tolist() == want, "FIBERMAP rows do not match REDSHIFTS rows")
    if "d" in out:
        scan2, z2 = read_zscan(out["d"])
        require([int(x) for x in dict.fromkeys(np.asarray(z2["targetid"]).tolist())] == want, "targets of the details file")
        k = ~np.isin(np.asarray(z["targetid"]), list(bad))
        for c in ("z", "chi2", "coeff", "legcoeff", "pca_coeff", "spectype", "subtype", "zwarn", "npixels", "znum"):
            require(c in z2.colnames or (c == "legcoeff" and nleg == 0), "no details column %s", c)
            if c in z2.colnames and k.any():
                same(z2[c][k], z[c][k], "details column %s" % c, "f4" if c in ("chi2", "coeff") else None)
    if "m" in out:
        with fits.open(out["m"]) as fx:
            header(fx[0].header)
            rr = redshifts(fx["REDSHIFTS"].data)
            models = {h.name[:-6].lower(): h.data for h in fx if h.name.endswith("_MODEL")}
            for k, t in enumerate(T):
                if not rr["NPIXELS"][k] or rr["FITMETHOD"][k].strip() == "NONE":
                    require(not any(m[k].any() for m in models.values()), "a model without data is not zero")
                    continue
                if rr["FITMETHOD"][k].strip() != "ARCH" or len(t.spectra) > len(models):
                    continue
                x = sum(float(np.sum(s.ivar * (s.flux - models[s.band][k])**2)) for s in t.spectra)
                scale = sum(float(np.sum(s.ivar * s.flux**2)) for s in t.spectra)
                big = sum(float(np.sum(s.ivar * models[s.band][k].astype(float)**2)) for s in t.spectra)
                require(abs(x - rr["CHI2"][k]) <= 1e-5 * (scale + big) + 1e-4 * x, "the model of target %d has chi2 %r, the table %r", want[k], x, rr["CHI2"][k])
    ctx.label("archetype answer", bool(np.any(best["fitmethod"] == "ARCH")))
    ctx.label("no Legendre", o["off"])
    ctx.label("per camera", percam)
    ctx.label("parallel", bool(case["size"]) or case["mp"] > 1)
    ctx.label("model file", "m" in out)
    ctx.nontrivial(bool(np.any(best["fitmethod"] == "ARCH")))


# ---------------------------------------------------------------- which files
@st.composite
def find_cases(draw):
    n = st.lists(st.sampled_from(["GALAXY", "QSO", "STAR"]), min_size=1, max_size=3, unique=True)
    sp = draw(n)
    arch = [draw(world.arch_specs(x, *world.default_zgrid(x, 10)[[0, -1]], namax=3)) for x in sp]
    return dict(a=arch, order=draw(st.permutations(list(range(len(arch))))), form=draw(st.sampled_from(["dir", "file", "$dir", "$file", "env", "list", "list", "none", "none"])), none=draw(st.sampled_from(["empty", "missing", "other names", "below", "env"])),
                ver=[draw(st.sampled_from(["1", "v2.0", "7b"])) for _ in arch], extra=draw(st.booleans()), case=draw(st.booleans()),
                names=draw(st.lists(st.sampled_from(["a", "b", "c", "galaxy", "qso-x"]), min_size=3, max_size=3, unique=True)))


def check_find(case, ctx):
    """Every way to name archetype files gives the archetypes of those files."""
    from redrock.archetypes import All_archetypes, find_archetypes, Archetype
    from astropy.io import fits
    tmp = tempfile.mkdtemp(prefix="c30-")
    paths = []
    for a, v, n in zip(case["a"], case["ver"], case["names"]):
        p = os.path.join(tmp, "rrarchetype-%s.fits" % n)
        world.write_archetype(a, p)
        fits.setval(p, "VERSION", value=v, extname="ARCHETYPES")
        paths.append(p)
    if case["extra"]:
        open(os.path.join(tmp, "README"), "w").write("x")
        open(os.path.join(tmp, "rrtemplate-galaxy.fits"), "w").write("x")
    use = [paths[i] for i in case["order"]]
    old = {k: os.environ.get(k) for k in ("RR_ARCHETYPE_DIR", "C30DIR")}
    os.environ["C30DIR"] = tmp
    os.environ["RR_ARCHETYPE_DIR"] = tmp if case["form"] == "env" else os.path.join(tmp, "elsewhere")
    try:
        f = case["form"]
        if f == "none":
            d = os.path.join(tmp, "none")
            if case["none"] != "missing":
                os.makedirs(os.path.join(d, "v1"))
            if case["none"] == "other names":
                shutil.copy(paths[0], os.path.join(d, "archetype-galaxy.fits"))
                shutil.copy(paths[0], os.path.join(d, "rrtemplate-galaxy.fits"))
            if case["none"] == "below":
                shutil.copy(paths[0], os.path.join(d, "v1"))
            os.environ["RR_ARCHETYPE_DIR"] = d
            try:
                got = All_archetypes(archetypes_dir=None if case["none"] == "env" else d).archetypes
            except Exception:
                ctx.label("no files: refused")
                ctx.nontrivial()
                return
            fail("a directory without archetype files (%s) loads as %d archetypes", case["none"], len(got))
        elif f == "list":
            got = All_archetypes(lstfilename=list(use)).archetypes
        elif f == "env":
            got = All_archetypes().archetypes
            require(sorted(find_archetypes()) == sorted(paths), "files of RR_ARCHETYPE_DIR")
        else:
            if "file" in f:
                use = use[:1]
            d = "$C30DIR" if "$" in f else tmp
            arg = d if "dir" in f else os.path.join(d, os.path.basename(use[0]))
            files = find_archetypes(arg)
            require(sorted(os.path.expandvars(x) for x in files) == sorted(use), "files of %s: %s", arg.replace(tmp, "TMP"), [os.path.basename(x) for x in files])
            got = All_archetypes(archetypes_dir=arg).archetypes
    finally:
        for k, v in old.items():
            os.environ.pop(k, None)
            if v is not None:
                os.environ[k] = v
    want = {a["spectype"]: (v, p, a) for a, v, p in zip(case["a"], case["ver"], paths) if p in use}
    require(sorted(got) == sorted(want), "archetypes of %s, expected %s", sorted(got), sorted(want))
    for sp, (v, p, a) in want.items():
        g = got[sp]
        require((g.version, g._rrtype, os.path.basename(os.path.expandvars(g.filename))) == (v, sp, os.path.basename(p)), "%s: version, type, file %s", sp, (g.version, g._rrtype, g.filename))
        with fits.open(p) as fx:
            h, d = fx["ARCHETYPES"].header, fx["ARCHETYPES"].data
            require(np.allclose(g.flux, d["ARCHETYPE"], rtol=1e-7, atol=0), "%s: flux", sp)
            w = h["CRVAL1"] + h["CDELT1"] * np.arange(d["ARCHETYPE"].shape[1])
            require(np.allclose(g.wave, 10**w if h["LOGLAM"] else w, rtol=1e-12, atol=0), "%s: wavelengths", sp)
            # subtypes are numbered: every archetype can be named
            names = [str(x) for x in g._subtype]
            require(len(set(names)) == len(names) == len(d) and [n.rsplit("_", 1) for n in names] == [[str(x).strip(), str(i)] for i, x in enumerate(d["SUBTYPE"])],
                    "%s: subtypes %s", sp, names)
            require([str(x) for x in g._full_type] == [sp + ":::" + n for n in names], "%s: full types %s", sp, list(g._full_type))
    ctx.label(case["form"])
    ctx.nontrivial(len(want) > 1 or "file" in case["form"])


def warm():
    import redrock.external.desi  # noqa
    from checks.c01 import warm as w
    w()


FACETS = [Facet("table", cases, check, quick=200, thorough=6000, shards=8, setup=warm,
                rule="1-3 templates, archetypes for all, some or other types x Legendre/prior/neighbours x minima x serial, multiprocessing, emulated MPI; the table "
                     "against the ranked merge of single fits and the evaluated models against its chi2; non-trivial = several templates or types with and without"),
          Facet("rrdesi", run_cases, check_run, quick=120, thorough=4000, shards=8, setup=warm,
                rule="one spectra/coadd file x archetype directory or file x archetype options and documented defaults x outputs x serial, multiprocessing, emulated "
                     "MPI; columns, headers, details and models against the directly called fit; non-trivial = an archetype is a best fit"),
          Facet("files", find_cases, check_find, quick=120, thorough=2000, shards=4, setup=warm,
                rule="1-3 archetype files x named by directory, file, list, environment variable; types, versions, spectra and names of the loaded archetypes against "
                     "the files; non-trivial = several files or one picked file")]
