"""C11: refinement of the scan minima (fitz)."""
import numpy as np
from scipy.optimize import nnls
from hypothesis import strategies as st
from vlib.core import Facet, require, fail
from vlib import world, oracle

ASSUMPTIONS = ["vertex position and value judged only where the three chi2 samples differ by more than 1e-7 of their size "
               "and the argmin is unique; candidate selection judged only where no threshold is met within 1e-6",
               "non-negative template fits use the reference solution of the normal equations"]


@st.composite
def cases(draw):
    return dict(t=draw(world.template_specs(1, 1, nzmin=5, nzmax=24, nbmax=3)),
                g=draw(world.target_specs(1, 1, npixmin=16, npixmax=36, nspecmax=2,
                                          kinds=["normal"] * 4 + ["noise", "nodata", "few"])),
                curve=draw(st.sampled_from(["scan", "scan", "random", "random", "smooth", "mono", "plateau", "nan"])),
                cseed=draw(st.integers(0, 2**31)), nminima=draw(st.integers(1, 7)),
                npts=draw(st.sampled_from([15, 15, 15, 5, 7, 9, 21])), fine=draw(st.sampled_from([1.0, 0.12, 0.09, 0.07, 0.05, 0.02, 0.004])))


def curve(case, n, scan):
    g = world.rng(case["cseed"])
    k = case["curve"]
    if k == "scan":
        return scan
    if k == "random":
        return g.uniform(10, 1000, n)
    if k == "smooth":
        x = np.linspace(0, 1, n)
        return 500 + sum(g.normal() * 50 * np.cos(2 * np.pi * f * x + g.uniform(0, 6)) for f in range(1, 6))
    if k == "mono":
        return np.sort(g.uniform(10, 1000, n))[::(1 if g.uniform() < 0.5 else -1)].copy()
    if k == "plateau":
        return g.integers(1, 4, n) * 100.0
    x = g.uniform(10, 1000, n)
    a = g.integers(0, n - 2)
    b = g.integers(a + 1, n)
    x[:a] = np.nan
    x[b + 1:] = np.nan
    x[a] = x[b] = np.inf
    return x


class Ambiguous(Exception):
    pass


def chi2_at(tgt, t, z, w, f):
    """chi2 + penalty of the best-fit model at z (reference)."""
    if not np.any(w > 0):
        return oracle.HUGE, np.zeros(t.nbasis), np.inf
    Tb = oracle.design(tgt, t, z)
    best, c, cond = oracle.wlsq(Tb, w, f)
    if t.method == "NMF":
        try:
            c = nnls(Tb.T @ (w[:, None] * Tb), Tb.T @ (w * f))[0]
            best = oracle.chi2_of(Tb, w, f, c)
        except RuntimeError:
            cond = np.inf
    return best + oracle.penalty(t, c), c, cond


def parabola(x, y):
    """Vertex form through three equally spaced points: x0, xerr, y0, a (centred, exact)."""
    h = 0.5 * (x[2] - x[0])
    a = 0.5 * (y[0] + y[2] - 2 * y[1]) / h**2
    b = 0.5 * (y[2] - y[0]) / h
    if a == 0:
        return None
    return x[1] - b / (2 * a), 1 / np.sqrt(abs(a)), y[1] - b * b / (4 * a), a


def refine(zz, y):
    """Expected (z, zerr, chi2, bad, exactly-known?) from the fine scan."""
    n = len(zz)
    srt = np.sort(y)
    amb = len(y) > 1 and srt[1] - srt[0] <= 1e-12 * abs(srt[0])
    k = int(np.argmin(y))
    i = min(max(k, 1), n - 2)
    x3, y3 = zz[i - 1:i + 2], y[i - 1:i + 2]
    s = y3.max() - y3.min()
    if s < 1e-7 * np.abs(y3).max() or amb:
        return None
    p = parabola(x3, y3)
    if p is None or abs(p[3]) * (x3[1] - x3[0])**2 < 1e-7 * np.abs(y3).max():
        return None
    x0, xerr, y0, a = p
    d = 1e-4 * (x3[1] - x3[0])
    for edge in (x3[0], x3[2], zz[0], zz[-1]):
        if abs(x0 - edge) <= d:
            return None
    if abs(y0) < 1e-6 * np.abs(y3).max():
        return None
    bad = x0 <= x3[0] or x0 >= x3[2] or y0 <= 0 or a < 0
    z, c = x0, y0
    if x0 < zz[0] or x0 > zz[-1]:
        bad = True
        z, c = zz[k], y[k]
    return dict(z=z, zerr=xerr, chi2=c, bad=bad, x0=x0, h=x3[1] - x3[0], s=s, scale=np.abs(y3).max())


def check(case, ctx):
    from redrock.fitz import fitz
    spec = dict(case["t"][0])
    if spec["spectype"] != "STAR" and case["fine"] != 1.0:
        # a finely sampled narrow range: the velocity limit then joins neighbouring minima
        lo = 0.3 if spec["spectype"] == "GALAXY" else 1.2
        spec["zlo"], spec["zhi"] = lo, lo + case["fine"]
    t = world.make_template(spec)
    tgt = world.make_target(case["g"][0], 11, [t])
    w, f = oracle.data(tgt)
    zg = t.redshifts
    n = len(zg)
    scan = np.array([chi2_at(tgt, t, z, w, f)[0] for z in zg]) if case["curve"] == "scan" else None
    x = curve(case, n, scan)
    r = fitz(x.copy(), zg, tgt, t, nminima=case["nminima"], zminfit_npoints=case["npts"])
    nr = len(r["z"])
    z = np.asarray(r["z"], float).reshape(-1)
    chi2 = np.asarray(r["chi2"], float).reshape(-1)
    zerr = np.asarray(r["zerr"], float).reshape(-1)
    zw = np.asarray(r["zwarn"], int).reshape(-1)
    require(nr <= case["nminima"], "%d results for nminima=%d", nr, case["nminima"])
    # local minima of the coarse curve
    ok = [i for i in range(n) if (i == 0 or x[i] <= x[i - 1]) and (i == n - 1 or x[i] <= x[i + 1])
          and not np.isnan(x[i])]
    if n > 1:
        ok = [i for i in ok if not (np.isnan(x[i - 1]) if i else False) and not (np.isnan(x[i + 1]) if i < n - 1 else False)]
    require((nr > 0) == (len(ok) > 0), "%d results from %d minima", nr, len(ok))
    require(np.all(np.diff(chi2) >= 0), "results are not sorted by chi2: %s", chi2)
    if nr == 0:
        ctx.label("no minimum")
        return
    limit = oracle.vlimit(t.template_type)
    npix = int(np.sum(w > 0))
    require(np.all(np.asarray(r["npixels"]).reshape(-1) == npix), "npixels %s, data has %d", r["npixels"], npix)
    which = []
    for k in range(nr):
        zz, y = np.asarray(r["zz"][k]), np.asarray(r["zzchi2"][k])
        require(len(zz) == case["npts"], "fine grid of %d points, asked for %d", len(zz), case["npts"])
        hit = [i for i in ok if abs(zz[0] - zg[max(0, i - 1)]) < 1e-12 and abs(zz[-1] - zg[min(n - 1, i + 1)]) < 1e-12]
        require(len(hit) == 1, "fine grid %g..%g is not around one local minimum of the scan", zz[0], zz[-1])
        which.append(hit[0])
        require(np.allclose(zz, np.linspace(zz[0], zz[-1], len(zz)), rtol=0, atol=1e-12), "fine grid is not uniform")
        require(zz[0] - 1e-12 <= z[k] <= zz[-1] + 1e-12, "z=%r outside its fine grid %r..%r", z[k], zz[0], zz[-1])
        # the fine scan is the best-fit chi2 plus penalty
        cond = 0
        for zi, yi in zip(zz, y):
            c2, cc, cd = chi2_at(tgt, t, zi, w, f)
            cond = max(cond, cd)
            if cd < 1e5:
                tol = 1e-7 * (np.sum(w * f**2) + c2)
                require(abs(c2 - yi) <= tol, "fine scan chi2 %r at z=%r, best fit has %r", yi, zi, c2)
        e = refine(zz, y)
        if e is not None:
            require(abs(z[k] - e["z"]) <= 1e-3 * e["h"], "z=%r, parabola through the fine scan gives %r (step %g)", z[k], e["z"], e["h"])
            require(abs(chi2[k] - e["chi2"]) <= 1e-3 * e["s"] + 1e-7 * e["scale"], "chi2=%r, parabola gives %r", chi2[k], e["chi2"])
            require(abs(zerr[k] - e["zerr"]) <= 1e-3 * e["zerr"], "zerr=%r, parabola gives %r", zerr[k], e["zerr"])
            require(bool(zw[k] & oracle.BAD_MINFIT) == e["bad"], "BAD_MINFIT is %s, expected %s", bool(zw[k] & oracle.BAD_MINFIT), e["bad"])
            ctx.label("bad parabola", e["bad"])
            ctx.nontrivial(not e["bad"])
            m = 1e-3 * e["h"]
            if all(abs(v - b) > m for v in (e["z"], e["x0"]) for b in (zg[1], zg[-2])):
                lim = not (zg[1] <= e["z"] <= zg[-2]) or not (zg[1] <= e["x0"] <= zg[-2])
                require(bool(zw[k] & oracle.Z_FITLIMIT) == lim, "Z_FITLIMIT is %s, z=%r, grid %r..%r", bool(zw[k] & oracle.Z_FITLIMIT), z[k], zg[1], zg[-2])
                ctx.label("at the redshift limit", lim)
        require((zw[k] & ~(oracle.BAD_MINFIT | oracle.Z_FITLIMIT)) == 0, "unexpected zwarn %d", zw[k])
        # coefficients belong to the reported redshift
        c = np.asarray(r["coeff"][k], float).reshape(-1)
        require(c.shape == (t.nbasis,), "coefficient shape %s", c.shape)
        c2, cc, cd = chi2_at(tgt, t, z[k], w, f)
        if not np.any(w > 0):
            require(np.all(c == 0), "coefficients %s without data", c)
        elif cd < 1e5:
            Tb = oracle.design(tgt, t, z[k])
            own = oracle.chi2_of(Tb, w, f, c) + oracle.penalty(t, c)
            require(own <= c2 + 1e-6 * (np.sum(w * f**2) + c2) or t.method != "PCA" or oracle.has_oii(t) and np.allclose(c, cc, rtol=1e-5, atol=1e-6 * np.abs(cc).max()),
                    "coefficients at z=%r give chi2 %r, the best fit there has %r", z[k], own, c2)
            require(np.allclose(c, cc, rtol=1e-3, atol=1e-4 * np.abs(cc).max()), "coefficients %s at z=%r, best fit has %s", c, z[k], cc)
    require(len(set(which)) == nr, "the same minimum is reported twice")
    for a in range(nr):
        for b in range(nr):
            if a != b:
                require(max(abs(oracle.dv(z[a], z[b])), abs(oracle.dv(z[b], z[a]))) >= limit * (1 - 1e-9),
                        "two candidates only %g km/s apart", oracle.dv(z[a], z[b]))
    try:
        sel = walk(case, x, zg, ok, tgt, t, w, f, limit, ctx)
    except Ambiguous:
        ctx.label("ambiguous selection")
        return
    require(sorted(sel) == sorted(which), "minima %s refined, expected %s", sorted(which), sorted(sel))
    ctx.label("selection compared")
    ctx.label("minima skipped", len(ok) > len(sel) and len(sel) < case["nminima"])


def walk(case, x, zg, ok, tgt, t, w, f, limit, ctx):
    """Which coarse minima must be refined and kept."""
    n = len(zg)
    order = sorted(ok, key=lambda i: x[i])
    done = []
    for pos, i in enumerate(order):
        if len(done) == case["nminima"]:
            break
        if pos + 1 < len(order) and not x[order[pos + 1]] - x[i] > 1e-9 * abs(x[i]):
            raise Ambiguous()
        if not np.isfinite(x[i]):
            raise Ambiguous()

        def near(z):
            r = False
            for _, zp in done:
                d = abs(oracle.dv(z, zp))
                if abs(d - limit) < 1e-3 * limit:
                    raise Ambiguous()
                r = r or d < limit
            return r
        if near(zg[i]):
            continue
        zz = np.linspace(zg[max(0, i - 1)], zg[min(n - 1, i + 1)], case["npts"])
        y, cd = zip(*[(lambda a: (a[0], a[2]))(chi2_at(tgt, t, v, w, f)) for v in zz])
        if not np.any(w > 0) or max(cd) > 1e5:
            raise Ambiguous()
        e = refine(zz, np.array(y))
        # differences within rounding, as where few pixels are fitted perfectly
        if e is None or e["s"] < 1e-9 * np.sum(w * f**2):
            raise Ambiguous()
        if near(e["z"]):
            ctx.label("joined after refinement")
            continue
        done.append((i, e["z"]))
    return [i for i, _ in done]


def warm():
    from checks.c01 import warm as w
    w()


FACETS = [Facet("refine", cases, check, quick=2400, thorough=20000, shards=8, setup=warm,
                rule="random template/target x coarse chi2 curve (true scan, random, smooth, monotone, plateaus, NaN/inf-bounded) x "
                     "1-5 minima x 5-21 fine points, wide and narrow redshift grids; non-trivial = a well-conditioned good "
                     "parabola was compared")]
