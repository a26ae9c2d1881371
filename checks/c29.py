"""C29: archetype fits."""
import os, tempfile
import numpy as np
from hypothesis import strategies as st
from vlib.core import Facet, require, fail
from vlib import world, oracle

ASSUMPTIONS = ["archetype files are synthetic", "the best archetype is judged where the least-squares optimum has positive archetype coefficients: where a bound is "
               "active, redrock bounds the normal equations instead, and only the consistency of what it returns is judged",
               "the prior (documented as for per-camera fits) is expected in per-camera fits only"]


@st.composite
def cases(draw):
    t = draw(world.template_specs(1, 1, nzmin=10, nzmax=16, nbmax=3))[0]
    zg = world.default_zgrid(t["spectype"], t["nz"])
    ncam = draw(st.sampled_from([1, 2, 2, 3, 3]))
    tg = draw(world.target_specs(1, 1, ncam=(ncam,), npixmin=24, npixmax=50, kinds=["normal"] * 6 + ["noise", "nodata", "few"], nspecmax=draw(st.sampled_from([1, 1, 3]))))[0]
    tg["bands"] = draw(st.sampled_from([True, True, True, False]))
    return dict(t=t, tg=tg, a=draw(world.arch_specs(t["spectype"], zg[0], zg[-1])), coadd=draw(st.sampled_from([None, None, "init", "later"])),
                percam=draw(st.booleans()), nleg=draw(st.integers(0, 4)), before=draw(st.sampled_from([None, None, 0, 1, 2, 4])), prior=draw(st.sampled_from([None, None, 0.01, 0.1, 1.0, 5.0])),
                nn=draw(st.sampled_from([None, None, None, 2, 3])), nminima=draw(st.sampled_from([1, 3, 9])), npoints=draw(st.sampled_from([15, 9])),
                src=draw(st.booleans()), amp=draw(st.sampled_from([1.0, 1.0, 30.0, 0.1])), slope=draw(st.floats(-1, 1, width=16)))


def grids(target):
    return {s.wavehash: s.wave for s in target.spectra}


class Ref:
    """Independent least squares of archetypes + Legendre terms for one target, at one redshift."""

    def __init__(self, target, wave, flux, z, igm, nleg, percam):
        self.w, self.f = oracle.data(target)
        g = grids(target)
        order = list(g)
        self.ncam = len(order) if percam else 1
        B, L = [], []
        for s in target.spectra:
            e = oracle.edges_of(s.wave)
            b = np.stack([oracle.bin_average(wave * (1 + z), x, e) for x in flux], axis=1) * oracle.transmission(igm, z, s.wave)[:, None]
            x = 2 * (s.wave - s.wave[0]) / (s.wave[-1] - s.wave[0]) - 1
            leg = np.polynomial.legendre.legvander(x, nleg - 1) if nleg else np.zeros((len(x), 0))
            l = np.zeros((len(x), nleg * self.ncam))
            i = order.index(s.wavehash) if percam else 0
            l[:, i * nleg:(i + 1) * nleg] = leg
            B.append(s.Rcsr.dot(b))
            L.append(s.Rcsr.dot(l) if l.shape[1] else l)
        self.B, self.L = np.vstack(B), np.vstack(L)

    def chi2(self, k, c):
        r = self.f - self.B[:, k].dot(c[:len(k)]) - self.L.dot(c[len(k):])
        return float(np.sum(self.w * r**2))

    def solve(self, k, sigma):
        """Coefficients, whether they are interior, condition number."""
        A = np.hstack([self.B[:, k], self.L])
        ok = self.w > 0
        s = np.sqrt(self.w[ok])
        M, y = A[ok] * s[:, None], self.f[ok] * s
        if sigma is not None:
            P = np.zeros((self.L.shape[1], A.shape[1]))
            P[:, len(k):] = np.eye(self.L.shape[1]) / sigma
            M, y = np.vstack([M, P]), np.concatenate([y, np.zeros(len(P))])
        if len(M) < M.shape[1]:
            return None, False, np.inf
        c, _, rank, sv = np.linalg.lstsq(M, y, rcond=None)
        cond = np.inf if rank < A.shape[1] or not len(sv) or sv[-1] == 0 else sv[0] / sv[-1]
        return c, bool(np.all(c[:len(k)] > 1e-6 * np.max(np.abs(c)))), cond


def build(case, tmp):
    from redrock.archetypes import Archetype
    from redrock.targets import Target
    p = os.path.join(tmp, "rrarchetype-%s.fits" % case["a"]["spectype"].lower())
    wave, flux = world.write_archetype(case["a"], p)
    A = Archetype(p)
    t = world.make_template(case["t"])
    tg = world.make_target(case["tg"], 77, [t])
    if case["src"]:
        # flux made of an archetype instead of the template
        z = tg.truth[0]
        for s in tg.spectra:
            k = case["tg"]["seed"] % len(flux)
            m = oracle.bin_average(wave * (1 + z), flux[k], oracle.edges_of(s.wave)) * oracle.transmission("Inoue14", z, s.wave)
            m = m * case["amp"] + case["slope"] * (s.wave - 6000) / 3000
            good = s.ivar > 0
            g = world.rng(case["tg"]["seed"] + len(s.wave))
            s.flux[good] = (s.Rcsr.dot(m) + g.normal(size=len(m)) / np.sqrt(np.where(good, s.ivar, 1)))[good]
    if case["coadd"] == "init":
        tg = Target(77, tg.spectra, coadd=True)
    elif case["coadd"]:
        tg.compute_coadd()
    return A, wave, flux, t, tg


def names_of(a):
    return [("%s_%d" % (s.strip(), i)) for i, s in enumerate(a["subs"][:a["narch"]])]


def judge(case, ctx, tg, A, names, ref, got, sigma, nn):
    """got: chi2, archetype coefficients, Legendre coefficients [ncam*nleg], subtype."""
    chi2, ac, lc, sub = got
    if ref.w.sum() == 0:
        require(chi2 == 9999999.0 and not np.any(ac) and not np.any(lc), "fit of a target without data: %r", got)
        ctx.label("no data")
        return False
    ks = [names.index(s) for s in sub.split(";")]
    require(len(ks) == (1 if nn is None else min(nn, len(names))) and len(set(ks)) == len(ks), "archetypes %s named for %s nearest", sub, nn)
    require(len(ac) == len(ks) and len(lc) == ref.L.shape[1], "%d archetype and %d Legendre coefficients", len(ac), len(lc))
    require(np.all(ac >= 0), "negative archetype coefficients %s", ac)
    sols = [ref.solve([k], sigma) for k in range(len(names))]
    if max(s[2] for s in sols) > 1e5:
        ctx.label("degenerate")
        return False
    scale = float(np.sum(ref.w * ref.f**2))
    mine = ref.chi2(ks, np.concatenate([ac, lc]))
    tol = 1e-7 * scale + 1e-6 * abs(mine)
    require(abs(chi2 - mine) <= tol, "chi2 %r is not that of the model it names (%r): type %s coefficients %s %s", chi2, mine, sub, ac, lc)
    each = [ref.chi2([k], s[0]) for k, s in enumerate(sols)]
    inner = [s[1] for s in sols]
    if nn is None:
        for k, (x, i) in enumerate(zip(each, inner)):
            require(not i or chi2 <= x + tol, "archetype %s has chi2 %r, but %s with %r was chosen", names[k], x, sub, chi2)
        if inner[ks[0]]:
            c = sols[ks[0]][0]
            require(abs(chi2 - each[ks[0]]) <= tol and np.allclose(np.concatenate([ac, lc]), c, rtol=1e-5, atol=1e-5 * np.max(np.abs(c))),
                    "coefficients %s %s (chi2 %r), optimum %s (chi2 %r)", ac, lc, chi2, c, each[ks[0]])
        ctx.label("inner optimum", inner[ks[0]])
        ctx.label("choice", sum(inner) > 1)
        return all(inner)
    if not all(inner):
        ctx.label("bounded")
        return False
    srt = np.argsort(each)
    n = len(ks)
    close = np.diff(np.array(each)[srt]) < 10 * tol
    if close[:n].any():
        return False
    require(ks == srt[:n].tolist(), "nearest archetypes %s, by chi2 %s", sub, [names[k] for k in srt[:n]])
    c, ok, cond = ref.solve(ks, sigma)
    if cond > 1e5:
        return False
    if ok:
        x = ref.chi2(ks, c)
        require(abs(chi2 - x) <= tol and np.allclose(np.concatenate([ac, lc]), c, rtol=1e-5, atol=1e-5 * np.max(np.abs(c))),
                "coefficients of the nearest archetypes %s %s (chi2 %r), optimum %s (chi2 %r)", ac, lc, chi2, c, x)
        ctx.label("neighbours")
    return ok


def check(case, ctx):
    from redrock.fitz import fitz
    from redrock.zscan import calc_zchi2
    from redrock.templates import DistTemplate
    tmp = tempfile.mkdtemp(prefix="c29-")
    A, wave, flux, t, tg = build(case, tmp)
    names = names_of(case["a"])
    ft = case["a"]["spectype"]
    require(A.template_type == ft and list(A.sub_type) == names and A.version == case["a"]["version"], "archetypes %s %s", A.template_type, A.sub_type)
    require(list(A.full_type) == [ft + ":::" + n for n in names], "full types %s", A.full_type)
    require(np.allclose(A.wave, wave, rtol=1e-12) and np.array_equal(A.flux, flux), "archetype file read wrongly")
    percam, nleg, nn = case["percam"], case["nleg"], case["nn"]
    g = grids(tg)
    d = DistTemplate(t, g)
    zchi2, zcoeff, pen = calc_zchi2([77], [tg], d)
    before = [(s.flux.copy(), s.ivar.copy()) for s in tg.spectra]
    a0 = A.flux.copy()
    kw = dict(nminima=case["nminima"], zminfit_npoints=case["npoints"])
    plain = fitz(zchi2[0] + pen[0], t.redshifts, tg, t, **kw)
    if case["before"] is not None:
        # an earlier fit of the same target with another number of terms
        fitz(zchi2[0] + pen[0], t.redshifts, tg, t, archetype=A, deg_legendre=case["before"], per_camera=not percam, **kw)
    r = fitz(zchi2[0] + pen[0], t.redshifts, tg, t, archetype=A, deg_legendre=nleg, per_camera=percam, n_nearest=nn, prior_sigma=case["prior"], **kw)
    require(np.array_equal(A.flux, a0) and all(np.array_equal(s.flux, b[0]) and np.array_equal(s.ivar, b[1]) for s, b in zip(tg.spectra, before)),
            "the fit changes the target or the archetypes")
    if len(plain["z"]) == 0:
        return
    po, ro = np.argsort(plain["z"][:, 0]), np.argsort(r["z"][:, 0])
    for c in ("z", "zerr", "zwarn", "zz", "zzchi2", "npixels"):
        require(world.same(plain[c][po], r[c][ro], 0.0), "%s with archetypes %s, without %s", c, r[c][ro].tolist(), plain[c][po].tolist())
    require(world.same(plain["coeff"][po], r["pca_coeff"][ro], 0.0), "template coefficients %s, %s", plain["coeff"], r["pca_coeff"])
    require(np.all(np.diff(r["chi2"][:, 0]) >= 0), "minima not sorted by chi2: %s", r["chi2"])
    n = len(r["z"])
    require(np.all(r["fitmethod"] == "ARCH") and np.all(r["pca_spectype"] == t.template_type) and np.all(r["pca_subtype"] == t.sub_type), "fit method or types")
    full = 0
    for i in range(n):
        z = float(r["z"][i, 0])
        if any(oracle.near_edge(z, x) for s in tg.spectra for x in s.wave):
            continue
        ref = Ref(tg, wave, flux, z, "Inoue14", nleg, percam)
        lc = np.asarray(r["legcoeff"][i], float)
        require(lc.shape == ((len(g), nleg) if percam else (nleg,)), "shape of the Legendre coefficients: %s", lc.shape)
        ftype = str(r["fulltype"][i, 0])
        require(ftype.startswith(ft + ":::"), "type %s", ftype)
        sub = ftype[len(ft) + 3:]
        got = (float(r["chi2"][i, 0]), np.asarray(r["coeff"][i], float), lc.ravel(), sub)
        full += judge(case, ctx, tg, A, names, ref, got, case["prior"] if percam else None, nn)
        # the evaluated model is the fitted one
        if ref.w.sum() and (i == 0 or full):
            row = dict(SPECTYPE=ft, SUBTYPE=sub, COEFF=r["coeff"][i], Z=z, FITMETHOD="ARCH", LEGCOEFF=lc)
            x = world.model_chi2(tg, lambda q: q.eval_model(row, {}, {ft: A}, nleg))
            scale = float(np.sum(ref.w * ref.f**2))
            require(abs(x - got[0]) <= 1e-7 * scale + 1e-6 * abs(x), "the evaluated model has chi2 %r, the fit %r", x, got[0])
    ctx.label("fitted before", case["before"] is not None)
    ctx.label("per camera", percam)
    ctx.label("Legendre", nleg > 0)
    ctx.label("several exposures", len(tg.spectra) > len(g))
    ctx.label("prior", case["prior"] is not None and percam)
    ctx.label("other IGM", t.igm_model != "Inoue14")
    ctx.nontrivial(full > 0)


@st.composite
def sign_cases(draw):
    case = draw(cases())
    case.update(nleg=draw(st.integers(1, 4)), nn=draw(st.sampled_from([2, 3, 3])), src=draw(st.booleans()), draws=draw(st.integers(10, 25)), level=draw(st.sampled_from([0.0, 0.3, -0.3, 3.0, -3.0])))
    case["a"]["narch"] = max(case["a"]["narch"], 3)
    return case


def check_signs(case, ctx):
    from redrock.fitz import prior_on_coeffs
    tmp = tempfile.mkdtemp(prefix="c29-")
    A, wave, flux, t, tg = build(case, tmp)
    g = grids(tg)
    rng = world.rng(case["tg"]["seed"] + 1)
    tg.legendre(nleg=case["nleg"])
    zero = 0
    ncam = len(g) if case["percam"] else 1
    prior = None if case["prior"] is None or not case["percam"] else prior_on_coeffs(case["nn"], case["nleg"], case["prior"], ncam)
    data = [(s.flux.copy(), s.ivar.copy()) for s in tg.spectra]
    w = np.concatenate([d[1] for d in data])
    if not np.any(w > 0):
        return
    for k in range(case["draws"]):
        for s, d in zip(tg.spectra, data):
            sig = 1 / np.sqrt(np.where(d[1] > 0, d[1], np.inf))
            s.flux[:] = np.where(d[1] > 0, d[0] * rng.uniform(-0.5, 0.5) + (rng.normal(size=len(sig)) + case["level"]) * sig, 0)
        f = np.concatenate([s.flux for s in tg.spectra])
        z = float(rng.choice(t.redshifts))
        chi2, c, ft = A.get_best_archetype(tg, w, f, w * f, g, z, case["percam"], case["nn"], trans=None, solve_method="bvls", prior=prior)
        n = min(case["nn"], len(A.flux))
        require(np.all(np.asarray(c)[:n] >= 0), "negative archetype coefficients %s at z=%r, draw %d", c, z, k)
        zero += bool(np.any(np.asarray(c)[:n] == 0))
    ctx.label("at the bound", zero)
    ctx.label("per camera", case["percam"])
    ctx.nontrivial(zero > 0)


@st.composite
def rebin_cases(draw):
    n = draw(st.integers(1, 5))
    return dict(a=draw(world.arch_specs(draw(st.sampled_from(["GALAXY", "QSO"])), 0.0, 1.5, namin=n, namax=n)), z=draw(st.floats(0, 1.5)), seed=draw(st.integers(0, 2**31)),
                grids=draw(st.lists(st.tuples(st.integers(2, 40), st.floats(3700, 9500), st.floats(0.3, 30)), min_size=1, max_size=3)),
                idx=draw(st.lists(st.integers(0, n - 1), min_size=1, max_size=6)), which=draw(st.sampled_from(["all", "all", "list", "mask"])))


def check_rebin(case, ctx):
    from redrock.archetypes import Archetype
    tmp = tempfile.mkdtemp(prefix="c29-")
    p = os.path.join(tmp, "rrarchetype-x.fits")
    wave, flux = world.write_archetype(case["a"], p)
    A = Archetype(p)
    z, n = case["z"], len(flux)
    rng = world.rng(case["seed"])
    dw = {}
    for k, (m, w0, d) in enumerate(case["grids"]):
        w = w0 + d * np.cumsum(rng.uniform(0.5, 1.5, size=m))
        e = oracle.edges_of(w)
        if e[0] <= wave[0] * (1 + z) or e[-1] >= wave[-1] * (1 + z):
            continue
        dw["g%d" % k] = w
    if not dw:
        return
    copies = {h: w.copy() for h, w in dw.items()}
    mean = {h: np.stack([oracle.bin_average(wave * (1 + z), f, oracle.edges_of(w)) for f in flux], axis=1) for h, w in dw.items()}
    interp = {h: np.stack([np.interp(w, wave * (1 + z), f) for f in flux], axis=1) for h, w in dw.items()}
    idx = {"all": None, "list": np.array(case["idx"]), "mask": np.isin(np.arange(n), case["idx"])}[case["which"]]
    rows = np.arange(n) if idx is None else np.arange(n)[idx]
    for trapz, want in ((True, mean), (False, interp)):
        got = A.rebin_template_batch(z, dw, trapz=trapz, indx=idx)
        require(set(got) == set(dw), "grids %s", sorted(got))
        for h in dw:
            y, x = np.asarray(got[h]), want[h][:, rows]
            require(y.shape == x.shape and np.allclose(y, x, rtol=1e-8, atol=1e-9 * np.max(np.abs(flux))),
                    "archetypes %s rebinned at z=%r (trapz=%s): shape %s, %s, expected %s, %s", rows.tolist(), z, trapz, y.shape, y[:2], x.shape, x[:2])
        k = int(rows[0]) if len(rows) else 0
        one = A.rebin_template(k, z, dw, trapz=trapz)
        for h in dw:
            require(np.asarray(one[h]).shape == dw[h].shape and np.allclose(one[h], want[h][:, k], rtol=1e-8, atol=1e-9 * np.max(np.abs(flux))),
                    "archetype %d rebinned at z=%r (trapz=%s): %s, expected %s", k, z, trapz, one[h][:3], want[h][:3, k])
    # a model without resolution or Legendre terms is the rebinned archetype seen through the IGM
    names = names_of(case["a"])
    c = float(rng.uniform(0.1, 5))
    for h, w in dw.items():
        if any(oracle.near_edge(z, x) for x in w):
            continue
        k = int(rng.integers(n))
        y = A.eval(names[k], [c], w, z)
        x = c * mean[h][:, k] * oracle.transmission("Inoue14", z, w)
        require(np.allclose(y, x, rtol=1e-6, atol=1e-9 * c * np.max(np.abs(flux))), "archetype %s evaluated at z=%r: %s, expected %s", names[k], z, y[:3], x[:3])
    require(all(np.array_equal(dw[h], copies[h]) for h in dw) and np.array_equal(A.flux, flux), "inputs changed")
    ctx.label("chosen archetypes", idx is not None)
    ctx.nontrivial(n > 1 and len(rows) != n)


def warm():
    from checks.c01 import warm as w
    w()


FACETS = [Facet("fit", cases, check, quick=640, thorough=12000, shards=8, setup=warm,
                rule="archetypes x Legendre degree x per camera x prior x neighbours x exposures/coadds; every minimum against independent least "
                     "squares, its chi2 against the evaluated model, the rest against the fit without archetypes; non-trivial = optimum decides the answer"),
          Facet("signs", sign_cases, check_signs, quick=400, thorough=10000, shards=8, setup=warm,
                rule="10-25 random fluxes per target x nearest neighbours x Legendre terms, mostly noise: archetype coefficients are never below 0, not by rounding; non-trivial = a coefficient at its bound"),
          Facet("rebin", rebin_cases, check_rebin, quick=1600, thorough=20000, shards=8, setup=warm,
                rule="1-5 archetypes x 1-3 grids x redshift x all, listed or masked archetypes: bin averages, interpolation and evaluated models; non-trivial = some of several archetypes")]
