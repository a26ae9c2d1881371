"""C21: coaddition of exposures."""
import numpy as np
import scipy.sparse
from hypothesis import strategies as st
from vlib.core import Facet, require, fail
from vlib import world, oracle

ASSUMPTIONS = ["the coadded resolution is judged when the exposures share it and no pixel is masked in all of them, or when each exposure has "
               "one weight for all pixels (otherwise the coadded resolution is an approximation by construction)"]



@st.composite
def cases(draw):
    ncam = draw(st.integers(1, 3))
    npix = draw(st.integers(12, 40))
    nexp = [draw(st.integers(1, 5)) for _ in range(ncam)]
    order = draw(st.permutations([(c, k) for c in range(ncam) for k in range(nexp[c])]))
    return dict(ncam=ncam, npix=npix, nexp=nexp, order=[list(o) for o in order], seed=draw(st.integers(0, 2**31)),
                mask=draw(st.sampled_from([0.0, 0.0, 0.1, 0.5])), R=draw(st.sampled_from(["same", "same", "different"])),
                weights=draw(st.sampled_from(["random", "random", "flat"])), bands=draw(st.booleans()),
                rk=draw(st.sampled_from(world.RKINDS)), rdesc=draw(st.booleans()), wide=draw(st.sampled_from([0, 0, 1, 3])),
                dead=draw(st.booleans()), cosmics=draw(st.sampled_from([0, 0, 5.0])), cache=draw(st.booleans()))


def make(case, waves=None):
    """[(camera, exposure, Spectrum)] in the drawn order."""
    from redrock.targets import Spectrum
    g = world.rng(case["seed"])
    waves = world.cameras(case["ncam"], case["npix"])
    out = {}
    for c in range(case["ncam"]):
        n = len(waves[c])
        truth = 5 + 2 * np.sin(np.linspace(0, 5, n) + c) + 20 * np.exp(-0.5 * ((np.arange(n) - g.integers(0, n)) / 0.7)**2)
        for k in range(case["nexp"][c]):
            R = world.getR(n, 0.7 if case["R"] == "same" else g.uniform(0.5, 1.2), kind=case["rk"], desc=case["rdesc"])
            iv = np.full(n, g.uniform(0.5, 4)) if case["weights"] == "flat" else g.uniform(0.3, 4, n)
            iv *= 10**g.uniform(-case["wide"], case["wide"])      # exposures of very different depth
            fl = truth + g.normal(size=n) / np.sqrt(iv)
            if case["mask"]:
                iv[g.uniform(size=n) < case["mask"]] = 0
            if case["dead"] and k == case["nexp"][c] - 1 and k > 0:
                iv[:] = 0
            fl[iv == 0] = g.normal() * 1e3
            out[c, k] = Spectrum(waves[c], fl, iv, R, band=world.BANDS[c] if case["bands"] else None)
    return [(c, k, out[c, k]) for c, k in case["order"]]


def coadd(specs, nsig=0, cache=False):
    from redrock.targets import Target
    t = Target(1, [s for _, _, s in specs])
    t.compute_coadd(cache_Rcsr=cache, cosmics_nsig=nsig)
    return t


def rowsum(R):
    return np.asarray(R.sum(axis=1)).reshape(-1)


def check(case, ctx):
    specs = make(case)
    before = [(s.flux.copy(), s.ivar.copy(), s.Rcsr.toarray()) for _, _, s in specs]
    t = coadd(specs, case["cosmics"] * 0, case["cache"])
    cams = list(dict.fromkeys(c for c, _, _ in specs))
    require(len(t.spectra) == len(cams), "%d coadded spectra for %d wavelength grids", len(t.spectra), len(cams))
    for c, s in zip(cams, t.spectra):
        ex = [x for cc, _, x in specs if cc == c]
        require(np.array_equal(s.wave, ex[0].wave) and s.wavehash == ex[0].wavehash and s.band == ex[0].band,
                "order or grid of the coadded spectra")
        w = np.array([x.ivar for x in ex])
        f = np.array([x.flux for x in ex])
        W = w.sum(axis=0)
        ok = W > 0
        want = (w * f).sum(axis=0)[ok] / W[ok]
        require(np.allclose(s.flux[ok], want, rtol=1e-10, atol=1e-10 * (np.abs(w * f).sum(axis=0)[ok] / W[ok])),
                "coadded flux is not the weighted mean (camera %d)", c)
        require(np.all(np.isfinite(s.flux)), "non-finite coadded flux")
        rs = rowsum(s.R)
        sure = np.abs(rs - 0.99) > 1e-6
        wantiv = np.where(rs < 0.99, 0, W)
        require(np.allclose(s.ivar[sure], wantiv[sure], rtol=1e-10), "coadded inverse variance is not the sum: %s, expected %s",
                s.ivar[sure][:4], wantiv[sure][:4])
        R = s.Rcsr.toarray()
        require(np.array_equal(R, s.R.toarray()), "Rcsr is not the coadded resolution")
        if case["R"] == "same":
            require(np.allclose(R[:, ok], ex[0].R.toarray()[:, ok], rtol=1e-10, atol=1e-12), "resolution shared by all exposures is changed")
            ctx.nontrivial(len(ex) > 1)
            ctx.label("shared resolution", len(ex) > 1)
        if case["weights"] == "flat" and case["mask"] == 0:
            # Spectrum() masks the pixels of rows with low sum; the others of an exposure share one weight
            a = np.array([x.ivar.max() for x in ex])
            inner = slice(6, len(s.wave) - 6)
            if a.sum() > 0:
                Rw = sum(ai * x.R.toarray() for ai, x in zip(a, ex)) / a.sum()
                require(np.allclose(R[inner, inner], Rw[inner, inner], rtol=1e-9, atol=1e-12), "coadded resolution of flat weights")
                ctx.label("flat weights, different resolution", case["R"] == "different" and len(ex) > 1)
        ctx.label("entirely masked pixel", (~ok).any())
    require(all(np.array_equal(s.flux, b[0]) and np.array_equal(s.ivar, b[1]) and np.array_equal(s.Rcsr.toarray(), b[2])
                for (_, _, s), b in zip(specs, before)), "coaddition modifies the exposures")
    # coadding a coadd changes nothing
    one = [(x.flux.copy(), x.ivar.copy(), x.Rcsr.toarray()) for x in t.spectra]
    t.compute_coadd()
    for x, (fl, iv, R) in zip(t.spectra, one):
        g = iv > 0
        lost = (x.ivar == 0) & g          # neighbours of masked pixels lose resolution integral
        require(np.allclose(x.flux[g], fl[g], rtol=1e-12) and np.allclose(x.ivar[g & ~lost], iv[g & ~lost], rtol=1e-12), "coadding twice changes the coadd")
    # exposure order
    perm = [specs[i] for i in np.argsort([c for c, _, _ in specs], kind="stable")][::-1]
    u = coadd(perm)
    by = {s.wavehash: s for s in u.spectra}
    for s in coadd(specs).spectra:
        x = by[s.wavehash]
        g = s.ivar > 0
        require(np.allclose(x.ivar, s.ivar, rtol=1e-10) and np.allclose(x.flux[g], s.flux[g], rtol=1e-9, atol=1e-9)
                and np.allclose(x.Rcsr.toarray(), s.Rcsr.toarray(), rtol=1e-9, atol=1e-12), "order of the exposures changes the coadd")


def check_cosmics(case, ctx):
    nsig = case["nsig"]
    specs = make(case)
    g = world.rng(case["seed"] + 1)
    alive = {}
    for c, k, s in specs:
        s.ivar[s.ivar > 0] = g.uniform(1.0, 1.4, (s.ivar > 0).sum())
        if (s.ivar > 0).any():
            alive.setdefault(c, []).append((k, s))
    # exposures agree exactly: nothing may be rejected
    for c in range(case["ncam"]):
        ref = [s for cc, _, s in specs if cc == c][0]
        for cc, _, s in specs:
            if cc == c:
                s.flux = ref.flux.copy() if (s.ivar > 0).all() else s.flux
                if not (s.ivar > 0).all():
                    b = ref.flux.copy()
                    b[s.ivar == 0] = 777.0
                    s.flux = b
    full = case["mask"] == 0
    a, b = coadd(specs, 0), coadd(specs, nsig)
    if full:
        for x, y in zip(a.spectra, b.spectra):
            require(np.array_equal(x.ivar, y.ivar) and np.array_equal(x.flux, y.flux), "pixels of identical exposures rejected as cosmics: %s",
                    np.where(x.ivar != y.ivar)[0][:5])
        ctx.label("identical exposures compared")
        ctx.nontrivial(any(len(v) > 1 for v in alive.values()))
        # offsets between the exposures, e.g. of the sky, are no cosmics
        keep = [s.flux for _, _, s in specs]
        for _, k, s in specs:
            s.flux = s.flux + np.where(s.ivar > 0, case["offset"] * (k + 1), 0)
        x, y = coadd(specs, 0), coadd(specs, nsig)
        for u, v in zip(x.spectra, y.spectra):
            # (next to pixels without resolution the gradient is not defined)
            ok = np.convolve(u.ivar > 0, np.ones(3), "same") == 3
            require(np.array_equal(u.ivar[ok], v.ivar[ok]), "offsets of %g between exposures are rejected as cosmics: pixels %s", case["offset"], np.where((u.ivar != v.ivar) & ok)[0][:5])
        for f, (_, _, s) in zip(keep, specs):
            s.flux = f
    # the threshold: n exposures of weight w reject a jump a of one of them at w a^2 / 2n > nsig^2
    c = case["cam"] % case["ncam"]
    n = len(alive.get(c, ()))
    if full and n >= 3:
        old = [s.ivar.copy() for _, s in alive[c]]
        for _, s in alive[c]:
            s.ivar[s.ivar > 0] = 1.25
        k, s = alive[c][case["hit"] % n]
        p = 4 + case["pix"] % (len(s.wave) - 8)
        if (s.ivar[p - 2:p + 3] > 0).all():
            keep = s.flux
            s.flux = s.flux.copy()
            s.flux[p] += case["jump"] * nsig * np.sqrt(2 * n / 1.25)
            x = [y for y in coadd(specs, nsig).spectra if y.wavehash == s.wavehash][0]
            want = 1.25 * (n - (abs(case["jump"]) > 1))
            require(np.isclose(x.ivar[p], want, rtol=1e-9), "weight %g at a jump of %g times the threshold of %g sigma, expected %g", x.ivar[p], case["jump"], nsig, want)
            s.flux = keep
            ctx.label("threshold")
        for iv, (_, s) in zip(old, alive[c]):
            s.ivar[:] = iv
    # a cosmic in one of at least three exposures is removed, as if it had been masked by hand
    c = case["cam"] % case["ncam"]
    if full and len(alive.get(c, ())) >= 3:
        k, s = alive[c][case["hit"] % len(alive[c])]
        p = 4 + case["pix"] % (len(s.wave) - 8)
        hit = 1e3 * nsig
        base = s.flux[p]
        s.flux = s.flux.copy()
        s.flux[p] += hit
        t = coadd(specs, nsig)
        x = [y for y in t.spectra if y.wavehash == s.wavehash][0]
        require(abs(x.flux[p] - base) < 1e-9 * hit, "cosmic of %g at pixel %d contaminates the coadd: %g instead of %g", hit, p, x.flux[p], base)
        want = sum(e.ivar[p] for kk, e in alive[c] if kk != k)
        require(np.isclose(x.ivar[p], want, rtol=1e-10), "weight of a pixel with a cosmic is %g, the other exposures have %g", x.ivar[p], want)
        far = np.abs(np.arange(len(s.wave)) - p) > 1
        z = [y for y in a.spectra if y.wavehash == s.wavehash][0]
        require(np.array_equal(z.ivar[far], x.ivar[far]) and np.array_equal(z.flux[far], x.flux[far]), "cosmic rejection affects other pixels")
        if case["R"] == "same":
            ok = z.ivar > 0
            require(np.allclose(x.R.toarray()[:, ok], s.R.toarray()[:, ok], rtol=1e-10, atol=1e-12), "resolution changed by cosmic rejection: row sums %s", rowsum(x.R)[p - 1:p + 2])
        ctx.label("cosmic removed")
    # what the flux of a masked pixel says does not matter
    a = coadd(specs, nsig)
    for _, _, s in specs:
        s.flux = np.where(s.ivar > 0, s.flux, g.normal(size=len(s.flux)) * 10.0**g.integers(0, 8))
        ctx.label("flux under the mask changed", (s.ivar == 0).any() and (s.ivar > 0).any())
    for x, y in zip(a.spectra, coadd(specs, nsig).spectra):
        m = x.ivar > 0
        require(np.array_equal(x.ivar, y.ivar) and np.array_equal(x.flux[m], y.flux[m]), "flux of masked pixels changes what is rejected: pixels %s",
                np.where((x.ivar != y.ivar) | ((x.flux != y.flux) & m))[0][:5])
    # an entirely masked exposure changes nothing, with or without rejection
    from redrock.targets import Spectrum
    extra = [(cc, 99, Spectrum(s.wave, np.full(len(s.wave), 55.0), np.zeros(len(s.wave)), s.R, band=s.band)) for cc, _, s in specs[:1]]
    for n in (0, nsig):
        t, u = coadd(specs, n), coadd(specs + extra, n)
        for x, y in zip(t.spectra, u.spectra):
            g = x.ivar > 0
            require(np.allclose(x.ivar, y.ivar, rtol=1e-12) and np.allclose(x.flux[g], y.flux[g], rtol=1e-12)
                    and np.allclose(x.R.toarray(), y.R.toarray(), rtol=1e-12, atol=1e-15),
                    "an entirely masked exposure changes the coadd (cosmics_nsig=%g)", n)


@st.composite
def cosmic_cases(draw):
    c = draw(cases())
    c.update(mask=draw(st.sampled_from([0.0, 0.0, 0.0, 0.3])), R="same", wide=0, nsig=draw(st.sampled_from([3.0, 5.0, 10.0])), offset=draw(st.sampled_from([0.5, -30.0, 300.0])), jump=draw(st.sampled_from([0.7, 0.9, -0.9, 1.1, -1.1, 1.4])),
             cam=draw(st.integers(0, 2)), hit=draw(st.integers(0, 4)), pix=draw(st.integers(0, 60)))
    return c


@st.composite
def fit_cases(draw):
    return dict(t=draw(world.template_specs(1, 2, nzmin=5, nzmax=12)), nexp=draw(st.integers(2, 4)),
                g=draw(world.target_specs(1, 1, npixmin=20, npixmax=40, kinds=["normal", "noise"])))


def check_fit(case, ctx):
    from redrock.targets import Spectrum
    from redrock.zscan import calc_zchi2_targets
    ts = [world.make_template(s) for s in case["t"]]
    spec = dict(case["g"][0], nspec=case["nexp"], mask=0.0)

    def mk():
        # rows normalised at the edges too, so that no pixel is masked
        t = world.make_target(spec, 5, ts)
        out = []
        for s in t.spectra:
            R = s.R.tocsr()
            R = scipy.sparse.diags(1 / rowsum(R)).dot(R).todia()
            R = scipy.sparse.dia_matrix(R)
            iv = np.where(s.ivar > 0, s.ivar, np.median(s.ivar))
            out.append(Spectrum(s.wave, np.where(s.ivar > 0, s.flux, 0.5), iv, R, band=s.band))
        t.spectra = out
        return t
    a, b = mk(), mk()
    w, f = oracle.data(a)
    b.compute_coadd()
    wb, fb = oracle.data(b)
    if np.isclose(wb.sum(), w.sum(), rtol=1e-9):
        ctx.label("no pixel lost")
    else:
        fail("total weight of the coadd %r, of the exposures %r", wb.sum(), w.sum())
    ra, rb = calc_zchi2_targets(*world.dist([a], ts))[5], calc_zchi2_targets(*world.dist([b], ts))[5]
    const = np.sum(w * f**2) - np.sum(wb * fb**2)
    for t in ts:
        from checks.c12 import fulltype
        ft = fulltype(t.template_type, t.sub_type)
        x, y = ra[ft], rb[ft]
        well = np.array([oracle.wlsq(oracle.design(a, t, z), w, f)[2] < 1e4 for z in t.redshifts])
        d = x["zchi2"] - y["zchi2"] - const
        require(np.all(np.abs(d[well]) <= 1e-7 * np.sum(w * f**2)), "chi2 differences of the coadd and of the exposures differ by %s", d[well][:3])
        m = np.abs(x["zcoeff"]).max()
        require(np.allclose(x["zcoeff"][well], y["zcoeff"][well], rtol=1e-5, atol=1e-6 * m), "coefficients of coadd and exposures differ")
        ctx.nontrivial(well.any())


def warm():
    from checks.c01 import warm as w
    w()


FACETS = [Facet("mean", cases, check, quick=1200, thorough=20000, shards=5,
                rule="1-3 cameras x 1-5 exposures in any order, masks, dead exposures, shared or different resolution; reference weighted "
                     "mean, exposure order, idempotence; non-trivial = several exposures with shared resolution compared"),
          Facet("cosmics", cosmic_cases, check_cosmics, quick=900, thorough=10000, shards=4,
                rule="identical exposures, offsets between them, jumps just below and above the threshold, one injected cosmic, an extra dead exposure, thresholds 3-10 sigma; non-trivial = several "
                     "identical exposures compared with and without rejection"),
          Facet("fit", fit_cases, check_fit, quick=300, thorough=5000, shards=4, setup=warm,
                rule="chi2 scan of 2-4 exposures against the scan of their coadd (differ by a constant); non-trivial = a well-conditioned redshift")]
