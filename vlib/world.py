"""Small synthetic worlds (templates, resolution matrices, targets) built from drawn integers."""
import numpy as np
import scipy.sparse
from hypothesis import strategies as st


BIG = 39627700000000000      # of the size of the TARGETIDs of DESI, beyond 2**53


def rng(seed):
    return np.random.default_rng(int(seed) & 0xFFFFFFFF)


RKINDS = ["gauss", "gauss", "norm", "ident"]


def getR(n, sigma=1.0, half=3, kind="gauss", desc=False):
    """Gaussian resolution matrix in dia format.  gauss: rows of edge pixels sum < 1 (such pixels get masked by Spectrum), norm: every row
    sums to 1, ident: no blurring.  desc: diagonals stored in descending order, as in DESI files."""
    x = np.arange(-half, half + 1)
    y = np.exp(-x**2 / (2.0 * max(sigma, 1e-3)**2))
    y /= y.sum()
    if kind == "ident":
        y = (x == 0) * 1.0
    if desc:
        x = x[::-1]
    data = np.repeat(y[:, None], n, axis=1)
    if kind == "norm":
        a = scipy.sparse.dia_matrix((data, x), shape=(n, n)).toarray()
        a /= a.sum(axis=1)[:, None]
        for k, o in enumerate(x):
            for j in range(n):
                data[k, j] = a[j - o, j] if 0 <= j - o < n else 0.0
    return scipy.sparse.dia_matrix((data, x), shape=(n, n))


def identR(n):
    return scipy.sparse.dia_matrix((np.ones((1, n)), [0]), shape=(n, n))


# ---------------------------------------------------------------- templates
TYPES = [("GALAXY", ""), ("QSO", "HIZ"), ("QSO", "LOZ"), ("STAR", "A"), ("STAR", "M"), ("STAR", ""),
         ("GALAXY", "ELG"), ("QSO", ""), ("NEBULAE", "A-LONG-SUBTYPE-OF-NEBULAE")]


def default_zgrid(spectype, nz, lo=None, hi=None):
    if spectype == "STAR":
        return np.linspace(-0.002, 0.002, nz)
    if lo is None:
        lo, hi = (0.0, 1.0) if spectype == "GALAXY" else (0.5, 2.5)
    return 10**np.linspace(np.log10(1 + lo), np.log10(1 + hi), nz) - 1


def template_flux(seed, wave, nbasis, positive=False):
    """Smooth continuum + a few narrow features per basis vector; well conditioned."""
    g = rng(seed)
    x = (wave - wave[0]) / (wave[-1] - wave[0])
    flux = np.zeros((nbasis, len(wave)))
    for b in range(nbasis):
        f = 1.0 + 0.5 * np.cos(np.pi * (b + 1) * x + g.uniform(0, 6))
        if b == 0:
            f = 1.0 + 0.3 * np.sin(3 * x)
        for _ in range(8):
            c = g.uniform(wave[0], wave[-1])
            w = g.uniform(1.5, 6) * (wave[1] - wave[0])
            f = f + g.normal() * np.exp(-0.5 * ((wave - c) / w)**2) * 2
        flux[b] = f
    if positive:
        flux = np.abs(flux) + 0.01
    return flux


def make_template(spec):
    """spec: dict(spectype, subtype, seed, nbasis, nz, method, igm[, zlo, zhi, wmin, wmax, dw])."""
    from redrock.templates import Template
    zg = default_zgrid(spec["spectype"], spec["nz"], spec.get("zlo"), spec.get("zhi"))
    wave = template_wave(spec, zg)
    flux = template_flux(spec["seed"], wave, spec["nbasis"], positive=spec.get("method", "PCA") == "NMF")
    return Template(spectype=spec["spectype"], subtype=spec["subtype"], redshifts=zg, wave=wave,
                    flux=flux, method=spec.get("method", "PCA"), igm_model=spec.get("igm", "None"))


def template_wave(spec, zg):
    obs_lo = spec.get("obs_lo", 3600.0)
    obs_hi = spec.get("obs_hi", 9900.0)
    wmin = obs_lo / (1 + zg[-1]) * 0.94
    wmax = obs_hi / (1 + zg[0]) * 1.06
    dw = spec.get("dw", 6.0)
    return np.arange(wmin, wmax, dw)


def write_template(spec, path, with_z=True):
    """The same template as a redrock FITS file (linear wavelength grid)."""
    from astropy.io import fits
    zg = default_zgrid(spec["spectype"], spec["nz"], spec.get("zlo"), spec.get("zhi"))
    wave = template_wave(spec, zg)
    flux = template_flux(spec["seed"], wave, spec["nbasis"], positive=spec.get("method", "PCA") == "NMF")
    h = fits.Header()
    h["CRVAL1"] = float(wave[0])
    h["CDELT1"] = float(spec.get("dw", 6.0))
    h["LOGLAM"] = 0
    h["RRTYPE"] = spec["spectype"]
    h["RRSUBTYP"] = spec["subtype"]
    h["RRMETHOD"] = spec.get("method", "PCA")
    h["RRIGM"] = spec.get("igm", "None")
    h["VERSION"] = spec.get("version", "9.9")
    hdus = fits.HDUList([fits.PrimaryHDU(), fits.ImageHDU(flux, header=h, name="BASIS_VECTORS")])
    if with_z:
        hdus.append(fits.ImageHDU(zg, name="REDSHIFTS"))
    hdus.writeto(path, overwrite=True)
    return wave, flux, zg


# ---------------------------------------------------------------- targets
def cameras(ncam, npix):
    """Observed grids of 1..3 overlapping cameras between 3700 and 9700 A."""
    lims = {1: [(3800, 9000)], 2: [(3700, 6200), (5900, 9500)],
            3: [(3700, 5700), (5500, 7500), (7300, 9600)]}[ncam]
    return [np.linspace(a, b, npix) for a, b in lims]


BANDS = "brz"
ZEROS = [0, 0, 0, 0.1, 0.9]     # fraction of good pixels with a flux of exactly zero


def make_target(spec, tid, templates):
    """spec: dict(seed, tmpl, zfrac, snr, ncam, npix, mask, nspec, bands, kind)."""
    from redrock.targets import Target, Spectrum
    g = rng(spec["seed"])
    t = templates[spec["tmpl"] % len(templates)]
    zg = t.redshifts
    z = zg[0] + (zg[-1] - zg[0]) * (0.05 + 0.9 * spec["zfrac"])
    coeff = np.abs(g.normal(size=t.nbasis)) + 0.3
    spectra = []
    kind = spec.get("kind", "normal")
    cams = list(enumerate(cameras(spec["ncam"], spec["npix"])))
    for ic, wave in cams[::-1] if spec.get("rev") else cams:
        for k in range(spec.get("nspec", 1)):
            if k == 0 or spec.get("esig"):       # exposures may differ in resolution
                R = getR(len(wave), spec.get("sig", 0.8) * (1, 0.6, 1.7)[k % 3], kind=spec.get("rk", "gauss"), desc=spec.get("rdesc", False))
                Rcsr = R.tocsr()
                model = t.eval(coeff, wave, z, R=Rcsr)
            ivar = (spec["snr"] / max(np.median(np.abs(model)), 0.05))**2 * g.uniform(0.6, 1.4, len(wave))
            flux = model + g.normal(size=len(wave)) / np.sqrt(ivar)
            if kind == "noise":
                flux = g.normal(size=len(wave)) / np.sqrt(ivar)
            if kind == "nodata":
                ivar[:] = 0
            if kind == "few":
                keep = g.permutation(len(wave))[:max(1, spec.get("nkeep", 4) // spec["ncam"])]
                m = np.ones(len(wave), bool)
                m[keep] = False
                ivar[m] = 0
            if spec.get("mask"):
                ivar[g.uniform(size=len(wave)) < spec["mask"]] = 0
            flux[ivar == 0] = 0 if g.uniform() < 0.5 else 1e3
            if spec.get("zeros"):
                flux[g.uniform(size=len(wave)) < spec["zeros"]] = 0.0
            if spec.get("f4"):
                flux, ivar = flux.astype(np.float32), ivar.astype(np.float32)
            band = BANDS[ic] if spec.get("bands") else None
            spectra.append(Spectrum(wave, flux, ivar, R, Rcsr if spec.get("csr", True) else None, band=band))
    if spec.get("inter"):                        # camera after camera of each exposure, instead of exposure after exposure of each camera
        n = spec.get("nspec", 1)
        spectra = [spectra[i * n + k] for k in range(n) for i in range(spec["ncam"])]
    tgt = Target(tid, spectra)
    tgt.truth = (z, t)
    return tgt


def bare(tg):
    """The target with perfect resolution."""
    import scipy.sparse
    from redrock.targets import Spectrum, Target
    sp = []
    for s in tg.spectra:
        n = len(s.wave)
        x = Spectrum(s.wave, s.flux.copy(), s.ivar.copy(), scipy.sparse.dia_matrix((np.ones((1, n)), [0]), shape=(n, n)), band=s.band)
        x.wavehash = s.wavehash
        sp.append(x)
    return Target(tg.id, sp)


def model_chi2(tg, ev):
    """chi2 of the model ev(target) evaluates for a target; where the exposures of a camera differ in resolution, eval_model
    has no place for their models, which are made from that of perfect resolution."""
    R = {}
    same = all(R.setdefault(s.wavehash, s.R) is s.R or (R[s.wavehash].shape == s.R.shape and not (R[s.wavehash] != s.R).nnz) for s in tg.spectra)
    m = ev(tg if same else bare(tg))
    return sum(float(np.sum(s.ivar * (s.flux - (m[s.wavehash] if same else s.R.dot(m[s.wavehash])))**2)) for s in tg.spectra)


@st.composite
def template_specs(draw, ntmin=1, ntmax=3, types=TYPES, nzmin=12, nzmax=40, methods=("PCA", "PCA", "NMF"),
                   nbmax=4):
    n = draw(st.integers(ntmin, ntmax))
    idx = draw(st.lists(st.integers(0, len(types) - 1), min_size=n, max_size=n, unique=True))
    out = []
    for i in idx:
        sp, sub = types[i]
        out.append(dict(spectype=sp, subtype=sub, seed=draw(st.integers(0, 2**31)),
                        nbasis=draw(st.integers(1, nbmax)), nz=draw(st.integers(nzmin, nzmax)),
                        method=draw(st.sampled_from(list(methods))),
                        igm=draw(st.sampled_from(["None", "Calura12", "Kamble20", "Inoue14"]))
                        if sp == "QSO" else "None"))
    return out


@st.composite
def target_specs(draw, nmin=1, nmax=3, ncam=(1, 2, 3), npixmin=30, npixmax=70, kinds=None, nspecmax=1):
    n = draw(st.integers(nmin, nmax))
    npix = draw(st.integers(npixmin, npixmax))
    nc = draw(st.sampled_from(list(ncam)))
    bands = draw(st.booleans())
    rk, rdesc = draw(st.sampled_from(RKINDS)), draw(st.booleans())
    zeros = draw(st.sampled_from(ZEROS))
    rev, csr = draw(st.sampled_from([False, False, True])), draw(st.booleans())
    esig, inter = nspecmax > 1 and draw(st.booleans()), nspecmax > 1 and draw(st.booleans())
    out = []
    kinds = kinds or ["normal"] * 5 + ["noise", "nodata", "few"]
    for i in range(n):
        out.append(dict(seed=draw(st.integers(0, 2**31)), tmpl=draw(st.integers(0, 5)),
                        zfrac=draw(st.floats(0, 1, width=16)),
                        snr=draw(st.sampled_from([0.5, 2.0, 8.0, 30.0])), ncam=nc, npix=npix,
                        mask=draw(st.sampled_from([0.0, 0.0, 0.1, 0.4])),
                        nspec=draw(st.integers(1, nspecmax)) if nspecmax > 1 else 1,
                        bands=bands, rk=rk, rdesc=rdesc, rev=rev, csr=csr, esig=esig, inter=inter, sig=draw(st.sampled_from([0.8, 0.8, 0.5, 1.3])),
                         zeros=zeros, kind=draw(st.sampled_from(kinds)), nkeep=draw(st.integers(2, 60))))
    return out


def dist(targets, templates, comm=None):
    from redrock.targets import DistTargetsCopy
    from redrock.templates import DistTemplate
    dt = DistTargetsCopy(targets, comm=comm)
    wg = dt.wavegrids()
    return dt, [DistTemplate(t, wg, comm=comm) for t in templates]


# ---------------------------------------------------------------- running and comparing
def run_zfind(targets, templates, comm=None, **kw):
    from redrock.zfind import zfind
    dt, dtm = dist(targets, templates, comm=comm)
    return zfind(dt, dtm, **kw)


def same(a, b, rtol):
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return False
    if a.dtype.kind in "fc" or b.dtype.kind in "fc":
        if rtol == 0:
            return bool(np.array_equal(a, b, equal_nan=True))
        m = max(np.max(np.abs(a[np.isfinite(a)]), initial=0), np.max(np.abs(b[np.isfinite(b)]), initial=0))
        return bool(np.allclose(a, b, rtol=rtol, atol=rtol * 1e-3 * m, equal_nan=True))
    if a.dtype.kind in "SU":
        return bool(np.all(a.astype(str) == b.astype(str)))
    return bool(np.array_equal(a, b))


def compare_tables(a, b, rtol=0.0, order=True, ids=None, skip=()):
    """None if equal, else a message.  Coefficient columns may differ in zero padding."""
    ca, cb = set(a.colnames) - set(skip), set(b.colnames) - set(skip)
    if ca != cb:
        return "columns differ: %s" % sorted(ca ^ cb)
    if ids is not None:
        a = a[np.isin(np.asarray(a["targetid"]), ids)]
        b = b[np.isin(np.asarray(b["targetid"]), ids)]
    if len(a) != len(b):
        return "row counts differ: %d, %d" % (len(a), len(b))
    ia = ib = np.arange(len(a))
    if not order:
        ia = np.lexsort((a["znum"], a["targetid"]))
        ib = np.lexsort((b["znum"], b["targetid"]))
    for c in sorted(ca):
        x, y = np.asarray(a[c])[ia], np.asarray(b[c])[ib]
        if x.ndim != y.ndim and c.endswith("coeff"):
            x, y = x.reshape(len(x), -1), y.reshape(len(y), -1)
        if c.endswith("coeff") and x.ndim == 2 and x.shape != y.shape:
            n = max(x.shape[1], y.shape[1])
            x = np.pad(x, ((0, 0), (0, n - x.shape[1])))
            y = np.pad(y, ((0, 0), (0, n - y.shape[1])))
        if not same(x, y, rtol):
            for i in range(len(x)):
                if not same(x[i], y[i], rtol):
                    return "column %s differs in row targetid=%s znum=%s: %s vs %s" % (
                        c, a["targetid"][ia[i]], a["znum"][ia[i]], x[i], y[i])
            return "column %s differs" % c
    return None


def compare_scans(a, b, rtol=0.0, ids=None):
    ka = set(a) if ids is None else set(ids)
    if ids is None and set(a) != set(b):
        return "targets differ"
    for t in ka:
        if t not in a or t not in b:
            return "target %s missing" % t
        if set(a[t]) != set(b[t]):
            return "templates of target %s differ: %s %s" % (t, sorted(a[t]), sorted(b[t]))
        for ft in a[t]:
            for k in ("redshifts", "zchi2", "penalty", "zcoeff"):
                if not same(a[t][ft][k], b[t][ft][k], rtol):
                    return "scan %s of target %s, template %s differs" % (k, t, ft)
    return None


# ---------------------------------------------------------------- archetypes
def arch_flux(spec):
    """Wavelength grid and fluxes [narch, nwave] of an archetype spec: dict(spectype, seed, narch, wmin, wmax, nwave, loglam, subs, dtype)."""
    if spec.get("loglam"):
        c0 = float(np.log10(spec["wmin"]))
        cd = (float(np.log10(spec["wmax"])) - c0) / (spec["nwave"] - 1)
        wave = 10**(c0 + cd * np.arange(spec["nwave"]))
    else:
        c0 = float(spec["wmin"])
        cd = (float(spec["wmax"]) - c0) / (spec["nwave"] - 1)
        wave = c0 + cd * np.arange(spec["nwave"])
    flux = template_flux(spec["seed"], wave, spec["narch"], positive=True)
    return c0, cd, wave, flux.astype(spec.get("dtype", "f8")).astype("f8")


def write_archetype(spec, path):
    from astropy.io import fits
    c0, cd, wave, flux = arch_flux(spec)
    t = fits.BinTableHDU.from_columns([
        fits.Column("ARCHETYPE", "%d%s" % (len(wave), {"f8": "D", "f4": "E"}[spec.get("dtype", "f8")]), array=flux),
        fits.Column("SUBTYPE", "A16", array=np.array(spec["subs"][:spec["narch"]], "S16"))], name="ARCHETYPES")
    t.header["CRVAL1"], t.header["CDELT1"], t.header["LOGLAM"] = c0, cd, bool(spec.get("loglam"))
    t.header["RRTYPE"], t.header["VERSION"] = spec["spectype"], spec.get("version", "0.7")
    fits.HDUList([fits.PrimaryHDU(), t]).writeto(path, overwrite=True)
    return wave, flux


@st.composite
def arch_specs(draw, spectype, zmin, zmax, obs=(3600.0, 9900.0), namin=1, namax=5):
    n = draw(st.integers(namin, namax))
    return dict(spectype=spectype, seed=draw(st.integers(0, 2**31)), narch=n, loglam=draw(st.booleans()), wmin=obs[0] / (1 + zmax) * 0.9,
                wmax=obs[1] / (1 + zmin) * 1.1, nwave=draw(st.integers(150, 900)), dtype=draw(st.sampled_from(["f8", "f4"])),
                subs=draw(st.lists(st.sampled_from(["", "ELG", "LRG", "A_1", "QSO", "STARBURST-DUSTY"]), min_size=n, max_size=n)), version=draw(st.sampled_from(["0.7", "2.1"])))
