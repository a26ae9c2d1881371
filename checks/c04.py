"""C04: the chi2 scan is the weighted least-squares optimum at every grid redshift."""
import numpy as np
from hypothesis import strategies as st
from vlib.core import Facet, require, fail
from vlib import world, oracle

ASSUMPTIONS = ["oracle uses its own rebinning/IGM and an SVD least-squares solve; optimality judged only where the "
               "weighted design matrix has condition number below 1e5",
               "non-negative fits: optimum claimed only where the unconstrained optimum is itself positive"]


@st.composite
def cases(draw):
    return dict(t=draw(world.template_specs(1, 3, nzmin=3, nzmax=14)),
                g=draw(world.target_specs(1, 3, npixmin=16, npixmax=40, nspecmax=2)),
                sing=draw(st.sampled_from([0, 0, 0, 1, 2])))


def build(case):
    ts = [world.make_template(s) for s in case["t"]]
    if case["sing"] and ts[0].nbasis > 1:
        from redrock.templates import Template
        t = ts[0]
        flux = t.flux.copy()
        if case["sing"] == 1:
            flux[1] = 0.0                      # a basis vector without flux: exactly singular system
        else:
            flux[1, t.wave > 2000] = 0.0
        ts[0] = Template(spectype=t.template_type, subtype=t.sub_type, redshifts=t.redshifts, wave=t.wave,
                         flux=flux, method=t.method, igm_model=t.igm_model)
    gs = [world.make_target(s, 1000 + 7 * i, ts) for i, s in enumerate(case["g"])]
    return ts, gs


def check(case, ctx):
    from redrock.zscan import calc_zchi2_targets
    ts, gs = build(case)
    # duplicate ids/types cannot occur; DistTemplate/DistTargets as in any caller
    dt, dtm = world.dist(gs, ts)
    before = [(s.flux.copy(), s.ivar.copy()) for g in gs for s in g.spectra]
    res = calc_zchi2_targets(dt, dtm)
    require(set(res) == set(g.id for g in gs), "results for targets %s", sorted(res))
    for g in gs:
        w, f = oracle.data(g)
        for t in ts:
            ft = t.template_type + (":::" + t.sub_type if t.sub_type else "")
            require(ft in res[g.id], "no scan of template %s for target %s", ft, g.id)
            r = res[g.id][ft]
            require(np.array_equal(r["redshifts"], t.redshifts), "redshifts are not the template grid")
            nz = len(t.redshifts)
            require(r["zchi2"].shape == (nz,) and r["zcoeff"].shape == (nz, t.nbasis) and r["penalty"].shape == (nz,),
                    "shapes %s %s %s", r["zchi2"].shape, r["zcoeff"].shape, r["penalty"].shape)
            if not np.any(w > 0):
                require(np.all(r["zchi2"] == oracle.HUGE) and np.all(r["zcoeff"] == 0) and np.all(r["penalty"] == 0),
                        "target without data: chi2 %s", r["zchi2"][:3])
                ctx.label("no data")
                continue
            chi0 = float(np.sum(w * f**2))
            for iz, z in enumerate(t.redshifts):
                Tb = oracle.design(g, t, z)
                best, cbest, cond = oracle.wlsq(Tb, w, f)
                chi2, c = r["zchi2"][iz], r["zcoeff"][iz]
                if cond > 1e5:
                    ctx.label("ill-conditioned")
                    if chi2 == oracle.HUGE and np.all(c == 0):
                        continue
                    if cond > 1e12:
                        continue
                require(np.all(np.isfinite(c)) and np.isfinite(chi2), "non-finite chi2/coeff at z=%g", z)
                own = oracle.chi2_of(Tb, w, f, c)
                tol = 1e-7 * (chi0 + own) + 1e-8 * float(np.sum(w * (np.abs(Tb) @ np.abs(c))**2))
                require(abs(chi2 - own) <= tol, "%s z=%g: chi2 %r but the reported coefficients give %r", ft, z, float(chi2), own)
                if t.method == "NMF":
                    require(np.all(c >= 0), "negative NMF coefficient %s at z=%g", c, z)
                    if cond < 1e5 and np.all(cbest > 1e-3 * np.abs(cbest).max()):
                        require(chi2 <= best + tol, "NMF chi2 %r above positive optimum %r at z=%g", float(chi2), best, z)
                        ctx.label("NMF interior optimum")
                    if cond < 1e5 and t.nbasis == 1 and cbest[0] < 0:
                        require(c[0] == 0, "NMF single basis with negative optimum must give zero")
                        ctx.label("NMF at bound")
                elif cond < 1e5:
                    require(chi2 <= best + tol, "%s z=%g: chi2 %r above the optimum %r", ft, z, float(chi2), best)
                    ctx.nontrivial(t.nbasis > 1)
    after = [(s.flux, s.ivar) for g in gs for s in g.spectra]
    require(all(np.array_equal(a[0], b[0]) and np.array_equal(a[1], b[1]) for a, b in zip(before, after)),
            "input spectra modified by the scan")
    ctx.label("masked pixels", any(s["mask"] for s in case["g"]))
    ctx.label("several exposures", any(s["nspec"] > 1 for s in case["g"]))
    ctx.label("different exposure counts", len(set(s["nspec"] for s in case["g"])) > 1)


def warm():
    from checks.c01 import warm as w
    w()


FACETS = [Facet("optimum", cases, check, quick=2000, thorough=30000, shards=8, setup=warm,
                rule="1-3 random templates (PCA/NMF, 1-4 bases, IGM models) x 1-3 targets (1-3 cameras, 1-2 exposures, masks, "
                     "pure noise, no data, few pixels); non-trivial = a multi-basis PCA optimum was compared")]
