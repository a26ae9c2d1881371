"""C16: redshift priors."""
import os, tempfile
import numpy as np
from hypothesis import strategies as st
from vlib.core import Facet, require
from vlib import world, oracle
from checks.c12 import rows_of, fulltype

ASSUMPTIONS = ["tophat priors that reach no grid point of any template are excluded (no candidate exists)"]
FUNCS = ["gaussian", "lorentzien", "tophat"]


def formula(fn, z, z0, s):
    if fn == "gaussian":
        return ((z - z0) / s)**2
    if fn == "lorentzien":
        return 2 * np.log1p(((z - z0) / s)**2)
    return None


def write(path, ids, z, s, fn):
    from astropy.table import Table
    from astropy.io import fits
    t = Table(dict(TARGETID=np.array(ids, dtype=np.int64), Z=np.array(z, float), SIGMA=np.array(s, float),
                   FUNCTION=np.array([fn] * len(ids))))
    h = fits.BinTableHDU(t, name="PRIORS")
    fits.HDUList([fits.PrimaryHDU(), h]).writeto(path, overwrite=True)


def prior_file(path, want, ts, fn, g):
    """Priors for some of the targets and one which is not there."""
    ids = [i for i in want if g.uniform() < 0.7] + [77]
    zg = ts[g.integers(len(ts))].redshifts
    w = zg[-1] - zg[0]
    z0 = zg[0] + g.uniform(0, 1, len(ids)) * w
    s = np.full(len(ids), 0.15 * w) if fn != "tophat" else 2 * w * g.uniform(0.5, 1.1, len(ids)) + 4 * np.max(np.diff(zg))
    write(path, ids, z0, s, fn)


@st.composite
def cases(draw):
    t = draw(world.template_specs(1, 3, nzmin=8, nzmax=24))
    seen = set()
    t = [x for x in t if not (x["spectype"] in seen or seen.add(x["spectype"]))]
    g = draw(world.target_specs(1, 4, npixmin=20, npixmax=40, kinds=["normal"] * 4 + ["noise"]))
    return dict(t=t, g=g, fn=draw(st.sampled_from(FUNCS)), nminima=draw(st.integers(1, 4)),
                has=draw(st.lists(st.booleans(), min_size=len(g), max_size=len(g))),
                at=draw(st.lists(st.tuples(st.integers(0, 2), st.floats(0, 1, width=16), st.sampled_from([1e-4, 0.01, 0.1, 0.5, 3.0])),
                                 min_size=len(g), max_size=len(g))))


def minima(x):
    n = len(x)
    return [i for i in range(n) if (i == 0 or x[i] <= x[i - 1]) and (i == n - 1 or x[i] <= x[i + 1])]


def check(case, ctx):
    ts = [world.make_template(s) for s in case["t"]]
    ids = [world.BIG + i for i in range(len(case["g"]))]
    mk = lambda: [world.make_target(s, i, ts) for s, i in zip(case["g"], ids)]
    fn = case["fn"]
    par = {}
    for i, h, (k, fr, s) in zip(ids, case["has"], case["at"]):
        if h or not par and i == ids[-1]:
            zg = ts[k % len(ts)].redshifts
            z0 = zg[0] + fr * (zg[-1] - zg[0])
            s0 = s * (zg[-1] - zg[0])
            if fn == "tophat" and not np.any(np.abs(zg - z0) < s0 / 2):
                s0 = 2.5 * (np.min(np.abs(zg - z0)) + np.max(np.diff(zg)))
            par[i] = (z0, s0)
    s0_, t0 = world.run_zfind(mk(), ts, nminima=case["nminima"])
    fd, path = tempfile.mkstemp(suffix=".fits", prefix="vrr")
    os.close(fd)
    try:
        # other targets in the file must not matter
        allid = list(par) + [77]
        write(path, allid, [par[i][0] for i in par] + [0.5], [par[i][1] for i in par] + [0.1], fn)
        s1, t1 = world.run_zfind(mk(), ts, nminima=case["nminima"], priors=path)
    finally:
        os.remove(path)
    for i in ids:
        if i not in par:
            m = world.compare_tables(t0, t1, ids=[i]) or world.compare_scans(s0_, s1, ids=[i])
            require(m is None, "target without a prior: %s", m)
            ctx.label("target without prior")
            continue
        z0, s0 = par[i]
        rows = rows_of(t1, i)
        for t in ts:
            ft = fulltype(t.template_type, t.sub_type)
            zg = t.redshifts
            base = s0_[i][ft]["zchi2"]
            new = s1[i][ft]["zchi2"]
            mine = rows[np.asarray(rows["spectype"]).astype(str) == t.template_type]
            step = np.max(np.diff(zg))
            if fn == "tophat":
                inside = np.abs(zg - z0) < s0 / 2
                if np.any(np.abs(np.abs(zg - z0) - s0 / 2) < 1e-9):
                    continue
                require(np.all(~np.isfinite(new[~inside])), "grid point outside the tophat keeps a finite chi2")
                core = inside.copy()
                core[[0, -1]] = False     # an infinite value may stand at the grid edge
                require(np.allclose(new[core], base[core], rtol=1e-12), "tophat changes chi2 inside")
                for r in mine:
                    require(abs(r["z"] - z0) <= s0 / 2 + step * (1 + 1e-9), "candidate z=%r outside the tophat %g +- %g", float(r["z"]), z0, s0 / 2)
                if not inside.any():
                    require(len(mine) == 0, "rows of template %s although its grid is outside the tophat", ft)
                    ctx.label("template excluded")
                ctx.nontrivial(len(mine) and not inside.all())
            else:
                p = formula(fn, zg, z0, s0)
                require(np.allclose(new, base + p, rtol=1e-9, atol=1e-9 * (np.abs(base).max() + 1)),
                        "%s prior: scan changed by %s, expected %s", fn, (new - base)[:3], p[:3])
                x = base + p + s0_[i][ft]["penalty"]
                ok = minima(x)
                for r in mine:
                    zz = np.asarray(r["zz"])
                    hit = [j for j in ok if abs(zz[0] - zg[max(0, j - 1)]) < 1e-12 and abs(zz[-1] - zg[min(len(zg) - 1, j + 1)]) < 1e-12]
                    require(len(hit) == 1, "candidate z=%r is not at a minimum of chi2 + prior", float(r["z"]))
                best = int(np.argmin(x))
                srt = np.sort(x)
                if srt[1] - srt[0] > 1e-6 * srt[0]:
                    require(any(abs(r["zz"][0] - zg[max(0, best - 1)]) < 1e-12 for r in mine), "minimum of chi2 + prior at z=%r was not refined", zg[best])
                ctx.label("prior moves the minimum", best != int(np.argmin(base + s0_[i][ft]["penalty"])))
                ctx.nontrivial(best != int(np.argmin(base + s0_[i][ft]["penalty"])))
            for c in ("penalty", "zcoeff", "redshifts"):
                require(world.same(s0_[i][ft][c], s1[i][ft][c], 0), "prior changes scan column %s", c)
    ctx.label(fn)


def warm():
    from checks.c01 import warm as w
    w()


FACETS = [Facet("prior", cases, check, quick=600, thorough=8000, shards=8, setup=warm,
                rule="1-4 targets, some with a prior (gaussian, lorentzien, tophat; narrow to wide; anywhere on a template grid), run "
                     "with and without the prior file; non-trivial = the prior moved a minimum or bounded a template's candidates")]
