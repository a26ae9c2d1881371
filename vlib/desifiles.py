"""Synthetic DESI spectra / coadd files from drawn specs, and the independent reading of the same data."""
import numpy as np
from hypothesis import strategies as st
from vlib import world
from vlib.world import rng

FIBERSTATUS = [0, 0, 0, 0, 1, 2, 3, 2**2, 2**3, 2**8, 2**9, 2**10, 2**12, 2**13, 2**16, 2**20, 2**22, 2**23, 2**24, 2**10 | 2**22, 2**3 | 2**9]
OBJTYPES = ["TGT", "TGT", "TGT", "TGT", "SKY", "BAD", ""]
BANDWAVES = dict(zip("brz", range(3)))


def waves(npix, bands):
    c = world.cameras(3, npix)
    return {b: c[BANDWAVES[b]] for b in bands}


def rows_of(spec):
    """[(index of target, exposure)] in file order."""
    out = [(i, e) for i, t in enumerate(spec["targets"]) for e in range(1 if spec["coadded"] else t["nexp"])]
    g = rng(spec["oseed"])
    if spec["shuffle"]:
        out = [out[k] for k in g.permutation(len(out))]
    return out


def file_targets(spec):
    """Target ids in order of first appearance."""
    out = []
    for i, e in rows_of(spec):
        t = spec["targets"][i]["tid"]
        if t not in out:
            out.append(t)
    return out


def spectrum(spec, t, e, band, ts):
    """flux, ivar, mask, R of one exposure in one band, exactly as stored in the file."""
    w = waves(spec["npix"], spec["bands"])[band]
    n = len(w)
    g = rng(t["seed"] + 977 * e + 31 * "brz".index(band))
    R = world.getR(n, t["sig"], kind=t["rk"], desc=True)
    Rd = R.data.astype(np.float32)
    if ts:
        tmpl = ts[t["tmpl"] % len(ts)]
        zg = tmpl.redshifts
        z = zg[0] + (zg[-1] - zg[0]) * (0.05 + 0.9 * t["zfrac"])
        coeff = np.abs(rng(t["seed"]).normal(size=tmpl.nbasis)) + 0.3
        model = tmpl.eval(coeff, w, z, R=R.tocsr())
    else:
        model = g.normal(size=n) + 2
    ivar = (t["snr"] / max(np.median(np.abs(model)), 0.05))**2 * g.uniform(0.5, 1.5, n)
    flux = model + g.normal(size=n) / np.sqrt(ivar)
    bad = g.uniform(size=n)
    mask = np.zeros(n, np.uint32)
    if t["junk"]:
        ivar[bad < 0.08] = 0
        flux[(bad > 0.10) & (bad < 0.14)] = np.nan
        flux[(bad > 0.15) & (bad < 0.18)] = np.inf
        flux[(bad > 0.18) & (bad < 0.21)] = -np.inf
        ivar[(bad > 0.20) & (bad < 0.23)] = np.nan
        ivar[(bad > 0.24) & (bad < 0.26)] = np.inf
        k = (bad > 0.3) & (bad < 0.4)
        flux[k] = -np.abs(g.normal(size=n)[k]) * 8 / np.sqrt(np.where(ivar[k] > 0, ivar[k], 1))
        mask[(bad > 0.45) & (bad < 0.55)] = 1 << g.integers(0, 31)
    if t["dead"]:
        ivar[:] = 0
    return flux.astype(np.float32), ivar.astype(np.float32), mask, Rd


def write(path, spec, ts=None):
    from astropy.io import fits
    from astropy.table import Table
    rows = rows_of(spec)
    T = [spec["targets"][i] for i, e in rows]
    fm = Table()
    fm["TARGETID"] = np.array([t["tid"] for t in T], dtype=np.int64)
    fm["OBJTYPE"] = np.array([t["objtype"] for t in T], dtype="S3")
    g = rng(spec["oseed"] + 5)
    fs = np.array([t["fs"][e % len(t["fs"])] for t, (i, e) in zip(T, rows)], dtype=np.int32)
    fm["TARGET_RA"] = np.array([t["seed"] % 3600 / 10. for t in T])
    if not spec["coadded"]:
        fm["FIBERSTATUS"] = fs
        fm["TILEID"] = np.array([1000 + (spec["tiles"] and (e % 2)) for i, e in rows], dtype=np.int32)
        fm["EXPID"] = np.array([e for i, e in rows], dtype=np.int32)
        fm["NIGHT"] = np.array([20240101 + e for i, e in rows], dtype=np.int32)
        fm["FIBER"] = np.array([i for i, e in rows], dtype=np.int32)
        ef = None
    else:
        fm["COADD_FIBERSTATUS"] = fs
        fm["COADD_NUMEXP"] = np.ones(len(rows), dtype=np.int16)
        k = np.concatenate([[j] * T[j]["nexp"] for j in range(len(T))]).astype(int)
        k = k[g.permutation(len(k))]
        ef = Table()
        ef["TARGETID"] = fm["TARGETID"][k]
        ef["EXPID"] = np.arange(len(k), dtype=np.int32)
        ef["FIBERSTATUS"] = np.zeros(len(k), dtype=np.int32)
    sc = Table()
    sc["TARGETID"] = fm["TARGETID"]
    sc["INTEG_B"] = np.ones(len(rows))
    for b in spec["bands"].upper():
        sc["TSNR2_LRG_" + b] = np.array([t["seed"] % 1000 + e + "BRZ".index(b) for t, (i, e) in zip(T, rows)], dtype=np.float32)
    hx = fits.HDUList([fits.PrimaryHDU()])
    hx[0].header["SPGRP"] = "healpix"
    hx[0].header["SPGRPVAL"] = spec["oseed"] % 10000
    hx[0].header["SURVEY"] = "main"
    h = fits.table_to_hdu(fm)
    h.name = "FIBERMAP"
    h.header["FMKEY"] = spec["oseed"] % 10000
    hx.append(h)
    h = fits.table_to_hdu(sc)
    h.name = "SCORES"
    hx.append(h)
    if ef is not None:
        h = fits.table_to_hdu(ef)
        h.name = "EXP_FIBERMAP"
        hx.append(h)
    for b, w in waves(spec["npix"], spec["bands"]).items():
        S = [spectrum(spec, t, e, b, ts) for t, (i, e) in zip(T, rows)]
        B = b.upper()
        hx.append(fits.ImageHDU(w, name=B + "_WAVELENGTH"))
        hx.append(fits.ImageHDU(np.array([s[0] for s in S]), name=B + "_FLUX"))
        hx.append(fits.ImageHDU(np.array([s[1] for s in S]), name=B + "_IVAR"))
        if spec["mask"]:
            hx.append(fits.ImageHDU(np.array([s[2] for s in S]).astype(np.int32), name=B + "_MASK"))
        hx.append(fits.ImageHDU(np.array([s[3] for s in S]), name=B + "_RESOLUTION"))
    hx.writeto(path, overwrite=True)


def clean(spec, flux, ivar, mask, negflux_nsig):
    """The documented cleaning of one spectrum: non-finite values, mask, significantly negative flux."""
    f, v = flux.astype(np.float64), ivar.astype(np.float64)
    badf = ~np.isfinite(f)
    f[badf] = 0
    v[~np.isfinite(v) | badf] = 0
    near = np.zeros(len(f), bool)
    sig = f * np.sqrt(np.maximum(v, 0))
    near = np.abs(sig + negflux_nsig) < 1e-6
    v[sig < -negflux_nsig] = 0
    if spec["mask"]:
        v[mask != 0] = 0
    return f, v, near


def select(specs, targetids=None, first=None, n=None):
    """Ids of the selected targets: per file, in order of first appearance."""
    out, per = [], []
    for s in specs:
        ids = file_targets(s)
        if targetids is not None:
            ids = [i for i in ids if i in targetids]
        a = first or 0
        ids = ids[a:] if n is None else ids[a:a + n]
        per.append(ids)
        for i in ids:
            if i not in out:
                out.append(i)
    return out, per


def exposures(specs, tid, negflux_nsig, per, ts=None):
    """[(band, wave, flux, ivar, Rdata, near)] of one target: files, bands, rows in order."""
    out = []
    for s, ids in zip(specs, per):
        if tid not in ids:
            continue
        w = waves(s["npix"], s["bands"])
        for b in s["bands"]:
            for i, e in rows_of(s):
                t = s["targets"][i]
                if t["tid"] == tid:
                    f, v, m, R = spectrum(s, t, e, b, ts)
                    f, v, near = clean(s, f, v, m, negflux_nsig)
                    out.append((b, w[b], f, v, R.astype(np.float64), near))
    return out


@st.composite
def filespecs(draw, nfmin=1, nfmax=2, ntmax=4, npix=(12, 24), junk=True, expmax=3, coadded=None, share=False, bands=("brz", "brz", "br", "rz", "b")):
    nf = draw(st.integers(nfmin, nfmax))
    ids = draw(st.lists(st.integers(1, 2**60), min_size=nf * ntmax, max_size=nf * ntmax, unique=True))
    if draw(st.integers(0, 2)) == 0:        # neighbours in the way DESI numbers its targets, beyond 2**53
        ids = [world.BIG + 1 + i % 37 + 37 * k for k, i in enumerate(ids)] if ids[0] % 2 else [world.BIG + k for k in range(len(ids))]
    np_ = draw(st.integers(*npix))
    co = draw(st.booleans()) if coadded is None else coadded
    tiles = draw(st.booleans())
    bd = draw(st.sampled_from(list(bands)))
    out = []
    for k in range(nf):
        nt = draw(st.integers(1, ntmax))
        tg = []
        for i in range(nt):
            ne = draw(st.integers(1, expmax))
            tid = ids[k * ntmax + i]
            if share and k > 0 and draw(st.integers(0, 3)) == 0:
                c = [t["tid"] for t in out[0]["targets"] if t["tid"] not in [x["tid"] for x in tg]]
                tid = c[0] if c else tid
            tg.append(dict(tid=tid, seed=draw(st.integers(0, 2**31)), nexp=max(ne, 2 if tiles else 1),
                           fs=draw(st.lists(st.sampled_from(FIBERSTATUS), min_size=1, max_size=2)),
                           objtype=draw(st.sampled_from(OBJTYPES)), junk=junk and draw(st.booleans()),
                           dead=draw(st.integers(0, 9)) == 0, sig=draw(st.sampled_from([0.6, 0.9, 1.3])),
                           rk=draw(st.sampled_from(["gauss", "norm", "norm"])), snr=draw(st.sampled_from([1., 5., 20.])),
                           tmpl=draw(st.integers(0, 5)), zfrac=draw(st.floats(0, 1, width=16))))
        out.append(dict(coadded=co, targets=tg, oseed=draw(st.integers(0, 2**31)), shuffle=draw(st.booleans()),
                        bands=bd, npix=np_, mask=draw(st.booleans()), tiles=tiles))
    return out
