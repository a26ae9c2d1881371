"""Independent reference computations used as oracles (no redrock code is called here)."""
import os
import numpy as np

_d = os.path.join(os.path.dirname(os.path.abspath(__file__)), "data")
LAF = np.loadtxt(os.path.join(_d, "LAFcoeff.txt"))
DLA = np.loadtxt(os.path.join(_d, "DLAcoeff.txt"))
LYA = 1215.67
C_KMS = 299792.458
HUGE = 9999999.0
CALURA = [(1215.67, 0.0023), (1025.72, 0.0023 / 5.2615), (972.537, 0.0023 / 14.356),
          (949.7431, 0.0023 / 29.85984), (937.8035, 0.0023 / 53.36202)]

# ZWARN bits as documented
SKY, LITTLE_COVERAGE, SMALL_DELTA_CHI2, NEGATIVE_MODEL, MANY_OUTLIERS, Z_FITLIMIT, NEGATIVE_EMISSION, \
    UNPLUGGED, BAD_TARGET, NODATA, BAD_MINFIT, POORDATA = [1 << i for i in range(12)]
BADFIT = NEGATIVE_MODEL | MANY_OUTLIERS | Z_FITLIMIT | NEGATIVE_EMISSION | BAD_MINFIT
RESERVED = sum(1 << i for i in range(16, 24))


def inoue_tau(z, lobs):
    """Optical depth at redshift z (scalar) for observed wavelengths lobs (array)."""
    lobs = np.atleast_1d(np.asarray(lobs, float))
    t = np.zeros(len(lobs))
    for (i, lam, a1, a2, a3), (_, _, d1, d2) in zip(LAF, DLA):
        on = lobs / (1 + z) < lam
        if not on.any():
            continue
        u = lobs / lam
        t += on * np.where(u < 2.2, a1 * u**1.2, np.where(u < 5.7, a2 * u**3.7, a3 * u**5.5))
        t += on * np.where(u < 3.0, d1 * u**2, d2 * u**3)
    u = lobs / 911.8
    p = 1 + z
    on = lobs < 911.8 * p
    if on.any():
        if z < 1.2:
            f = 0.3248 * (u**1.2 - p**-0.9 * u**2.1)
        elif z < 4.7:
            f = np.where(u < 2.2, 2.545e-2 * p**1.6 * u**2.1 + 0.3248 * u**1.2 - 0.2496 * u**2.1,
                         2.545e-2 * (p**1.6 * u**2.1 - u**3.7))
        else:
            f = np.where(u < 2.2, 5.221e-4 * p**3.4 * u**2.1 + 0.3248 * u**1.2 - 3.140e-2 * u**2.1,
                np.where(u < 5.7, 5.221e-4 * p**3.4 * u**2.1 + 0.2182 * u**2.1 - 2.545e-2 * u**3.7,
                         5.221e-4 * (p**3.4 * u**2.1 - u**5.5)))
        if z < 2.0:
            d = 0.2113 * p**2 - 0.07661 * p**2.3 * u**-0.3 - 0.1347 * u**2
        else:
            d = np.where(u < 3.0, 0.6340 + 0.04696 * p**3 - 0.01779 * p**3.3 * u**-0.3 - 0.1347 * u**2
                         - 0.2905 * u**-0.3,
                         0.04696 * p**3 - 0.01779 * p**3.3 * u**-0.3 - 0.02916 * u**3)
        t += on * (f + d)
    return t


def transmission(model, z, lobs):
    lobs = np.atleast_1d(np.asarray(lobs, float))
    if model in (None, "None"):
        return np.ones(len(lobs))
    if model == "Inoue14":
        return np.exp(-inoue_tau(z, lobs))
    r = lobs / (1 + z)
    if model == "Calura12":
        return np.exp(-sum(np.where(r < l, a * (lobs / l)**3.64, 0.0) for l, a in CALURA))
    return np.where(r < LYA, np.exp(-0.00554 * (lobs / LYA)**3.182), 1.0)


def near_edge(z, lobs):
    """Within rounding of a piecewise boundary (either branch is acceptable)."""
    r = lobs / (1 + z)
    lines = np.concatenate([LAF[:, 1], [911.8], [c[0] for c in CALURA]])
    if np.any(np.abs(r / lines - 1) < 1e-9):
        return True
    for f in (2.2, 5.7, 3.0):
        if np.any(np.abs(lobs / lines / f - 1) < 1e-9):
            return True
    return False


def edges_of(c):
    c = np.asarray(c, float)
    e = np.zeros(len(c) + 1)
    e[1:-1] = 0.5 * (c[1:] + c[:-1])
    e[0] = c[0] - (e[1] - c[0])
    e[-1] = c[-1] + (c[-1] - e[-2])
    return e


def bin_average(x, y, edges):
    """Averages of the piecewise-linear interpolant over every bin (y: 1-d)."""
    pts = np.unique(np.concatenate([x, edges]))
    v = np.interp(pts, x, y)
    cum = np.concatenate([[0], np.cumsum(0.5 * (v[1:] + v[:-1]) * np.diff(pts))])
    return np.diff(cum[np.searchsorted(pts, edges)]) / np.diff(edges)


def basis_at(t, z, wave):
    """[nwave, nbasis] rebinned basis x transmission at redshift z."""
    e = edges_of(wave)
    B = np.stack([bin_average(t.wave * (1 + z), t.flux[b], e) for b in range(t.flux.shape[0])], axis=1)
    return B * transmission(t.igm_model, z, wave)[:, None]


def design(target, t, z):
    """Stacked R x basis over the spectra of a target."""
    cache = {}
    out = []
    for s in target.spectra:
        k = s.wavehash
        if k not in cache:
            cache[k] = basis_at(t, z, s.wave)
        out.append(s.Rcsr.dot(cache[k]))
    return np.vstack(out)


def data(target):
    w = np.concatenate([s.ivar for s in target.spectra])
    f = np.concatenate([s.flux for s in target.spectra])
    return w, f


def chi2_of(Tb, w, f, c):
    return float(np.sum(w * (f - Tb.dot(c))**2))


def wlsq(Tb, w, f):
    """Weighted least squares by QR/SVD (not normal equations): chi2min, coeff, cond."""
    ok = w > 0
    s = np.sqrt(w[ok])
    A = Tb[ok] * s[:, None]
    c, _, rank, sv = np.linalg.lstsq(A, f[ok] * s, rcond=None)
    cond = np.inf if rank < A.shape[1] or len(sv) == 0 or sv[-1] == 0 else sv[0] / sv[-1]
    return chi2_of(Tb, w, f, c), c, cond


def oii_sum(t, coeff):
    m = (t.wave >= 3724) & (t.wave <= 3733)
    return float(np.sum(np.asarray(coeff).dot(t.flux[:, m])))


def has_oii(t):
    return t.template_type == "GALAXY" and t.method == "PCA"


def penalty(t, coeff):
    return max(0.0, -oii_sum(t, coeff)) if has_oii(t) else 0.0


def dv(z, zref):
    return C_KMS * (z - zref) / (1.0 + zref)


def vlimit(spectype):
    return 100.0 if str(spectype).upper() == "STAR" else 1000.0
