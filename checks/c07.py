"""C07: the [OII] penalty applies to PCA galaxy fits only, and is the summed negative [OII] flux."""
import numpy as np
from hypothesis import strategies as st
from vlib.core import Facet, require, fail
from vlib import world, oracle

ASSUMPTIONS = ["[OII] window is 3724-3733 A rest frame as stated in the code documentation"]


@st.composite
def cases(draw):
    ts = draw(world.template_specs(1, 3, nzmin=3, nzmax=20,
                                   types=[("GALAXY", ""), ("GALAXY", "ELG"), ("QSO", ""), ("STAR", "A")]))
    if not any(t["spectype"] == "GALAXY" for t in ts):
        ts[0]["spectype"], ts[0]["subtype"] = "GALAXY", draw(st.sampled_from(["", "X"]))
        ts[0]["igm"] = "None"
    for t in ts:
        t["dw"] = draw(st.sampled_from([1.5, 3.0, 6.0]))
    return dict(t=ts, g=draw(world.target_specs(1, 2, ncam=(1, 2), npixmin=20, npixmax=50)),
                oii=draw(st.sampled_from([-3.0, -1.0, 0.0, 1.0])),
                dchi2=draw(st.booleans()), snap=draw(st.booleans()))


def build(case):
    from redrock.templates import Template
    ts = []
    for s in case["t"]:
        t = world.make_template(s)
        flux = t.flux.copy()
        line = np.exp(-0.5 * ((t.wave - 3728.5) / 4.0)**2)
        flux[-1] = flux[-1] + case["oii"] * 3 * line
        if s.get("method") == "NMF":
            flux = np.abs(flux)
        wave = t.wave
        if case["snap"]:                # samples exactly at the ends of the window
            wave = 3724 + s["dw"] * (np.ceil((wave[0] - 3724) / s["dw"]) + np.arange(len(wave)))
        ts.append(Template(spectype=t.template_type, subtype=t.sub_type, redshifts=t.redshifts, wave=wave,
                           flux=flux, method=t.method, igm_model=t.igm_model))
    gs = [world.make_target(s, 5 + i, ts) for i, s in enumerate(case["g"])]
    return ts, gs


def check(case, ctx):
    from redrock.zscan import calc_zchi2_targets
    from redrock.fitz import fitz
    ts, gs = build(case)
    dt, dtm = world.dist(gs, ts)
    res = calc_zchi2_targets(dt, dtm)
    for g in gs:
        w, f = oracle.data(g)
        for t in ts:
            ft = t.template_type + (":::" + t.sub_type if t.sub_type else "")
            r = res[g.id][ft]
            want = np.array([oracle.penalty(t, c) for c in r["zcoeff"]])
            tol = 1e-8 * (1 + np.abs(r["zcoeff"]) @ np.abs(t.flux[:, (t.wave > 3700) & (t.wave < 3750)]).sum(axis=1))
            bad = np.abs(r["penalty"] - want) > tol
            require(not bad.any(), "%s (%s): penalty %s where the [OII] flux of the fit gives %s", ft, t.method,
                    r["penalty"][bad][:3], want[bad][:3])
            ctx.label("positive penalty", (want > 0).any())
            ctx.label("zero penalty on PCA galaxy", oracle.has_oii(t) and (want == 0).any())
            ctx.label("non PCA galaxy", t.template_type == "GALAXY" and t.method == "NMF")
            ctx.nontrivial((want > 0).any())
            # the chi2 itself carries no penalty
            iz = int(np.argmax(want))
            if np.any(w > 0) and r["zchi2"][iz] != oracle.HUGE:
                Tb = oracle.design(g, t, t.redshifts[iz])
                own = oracle.chi2_of(Tb, w, f, r["zcoeff"][iz])
                scale = float(np.sum(w * (np.abs(f) + np.abs(Tb) @ np.abs(r["zcoeff"][iz]))**2))
                require(abs(own - r["zchi2"][iz]) <= 1e-7 * scale,
                        "scan chi2 %r differs from the data chi2 %r (penalty %r)", float(r["zchi2"][iz]), own, want[iz])
            # refined fits: the sampled chi2 around each minimum includes the penalty of its own fit
            zf = fitz(r["zchi2"] + r["penalty"], t.redshifts, g, t, nminima=2)
            if len(zf["chi2"]) and np.any(w > 0):
                zz, zzchi2 = zf["zz"][0], zf["zzchi2"][0]
                for k in (0, len(zz) // 2, len(zz) - 1):
                    Tb = oracle.design(g, t, zz[k])
                    best, c, cond = oracle.wlsq(Tb, w, f)
                    if t.method == "NMF" or cond > 1e4:
                        continue
                    scale = float(np.sum(w * (np.abs(f) + np.abs(Tb) @ np.abs(c))**2))
                    oii = t.flux[:, (t.wave > 3700) & (t.wave < 3750)]
                    ptol = 1e-6 * (np.abs(c) @ np.abs(oii).sum(axis=1)) * max(1, cond)**0.5
                    wantk = best + oracle.penalty(t, c)
                    require(abs(zzchi2[k] - wantk) <= 1e-7 * scale + ptol,
                            "%s refined chi2 at z=%r is %r; optimum plus penalty is %r (penalty %r)", ft, float(zz[k]),
                            float(zzchi2[k]), wantk, oracle.penalty(t, c))
                    ctx.label("refined with penalty", oracle.penalty(t, c) > 0)


def warm():
    from checks.c01 import warm as w
    w()


FACETS = [Facet("penalty", cases, check, quick=1200, thorough=20000, shards=8, setup=warm,
                rule="galaxy (PCA and NMF), QSO, star templates with [OII] of either sign x random targets; "
                     "non-trivial = some fitted [OII] flux is negative in a PCA galaxy fit")]
