"""C15: the redshift and class of a spectrum drawn from a template are recovered."""
import numpy as np
from hypothesis import strategies as st
from vlib.core import Facet, require
from vlib import world, oracle

ASSUMPTIONS = ["judged only where the reference chi2 scan of all templates has its unique minimum (by more than 60) next to the "
               "true redshift of the true template"]


@st.composite
def cases(draw):
    t = draw(world.template_specs(1, 3, nzmin=30, nzmax=50, nbmax=3))
    zlo = draw(st.floats(0, 1.5, width=16))
    for s in t:
        if s["spectype"] != "STAR":
            s["zlo"] = 0.02 + zlo + (0.0 if s["spectype"] == "GALAXY" else 1.0 if zlo < 0.75 else 1.75)
            s["zhi"] = s["zlo"] + draw(st.sampled_from([0.06, 0.1, 0.15]))
    return dict(t=t, tmpl=draw(st.integers(0, len(t) - 1)), zfrac=draw(st.floats(0.0625, 0.9375, width=16)),
                snr=draw(st.sampled_from([10.0, 20.0, 40.0])), seed=draw(st.integers(0, 2**31)),
                ncam=draw(st.sampled_from([1, 2, 3])), npix=draw(st.integers(90, 160)),
                mask=draw(st.sampled_from([0.0, 0.0, 0.1, 0.3])), nspec=draw(st.integers(1, 2)),
                rev=draw(st.booleans()), esig=draw(st.booleans()), nminima=draw(st.integers(1, 3)))


def check(case, ctx):
    ts = [world.make_template(s) for s in case["t"]]
    tg = world.make_target(dict(seed=case["seed"], tmpl=case["tmpl"], zfrac=case["zfrac"], snr=case["snr"], ncam=case["ncam"],
                                npix=case["npix"], mask=case["mask"], nspec=case["nspec"], rev=case["rev"], esig=case["esig"]), 7, ts)
    ztrue, t = tg.truth
    w, f = oracle.data(tg)
    # is the answer determined?  (reference scan, own rebinning and solver)
    k = int(np.argmin(np.abs(t.redshifts - ztrue)))
    if not t.redshifts[2] < ztrue < t.redshifts[-3]:
        ctx.label("too close to the edge of the redshift range")
        return
    near = np.inf
    far = np.inf
    for u in ts:
        for i, z in enumerate(u.redshifts):
            Tb = oracle.design(tg, u, z)
            c2, c, _ = oracle.wlsq(Tb, w, f)
            if u.method == "NMF":
                c2 = oracle.chi2_of(Tb, w, f, np.clip(c, 0, None)) if u is t else c2
            if u is t and abs(i - k) <= 1:
                near = min(near, c2 + oracle.penalty(u, c))
            elif not (u is t and abs(i - k) <= 3):
                far = min(far, c2)
    if not far > near + 60:
        ctx.label("ambiguous spectrum")
        return
    _, tab = world.run_zfind([tg], ts, nminima=case["nminima"])
    r = tab[0]
    require(str(r["spectype"]) == t.template_type and str(r["subtype"]) == t.sub_type, "best class %s/%s, true %s/%s",
            r["spectype"], r["subtype"], t.template_type, t.sub_type)
    step = t.redshifts[min(k + 1, len(t.redshifts) - 1)] - t.redshifts[k - 1]
    tol = 6 * float(r["zerr"]) + step / 14
    require(abs(r["z"] - ztrue) <= tol, "best z=%r +- %g, true %r", float(r["z"]), r["zerr"], ztrue)
    require(not int(r["zwarn"]) & ~oracle.SMALL_DELTA_CHI2, "zwarn %d for a good spectrum", r["zwarn"])
    ndof = int((w > 0).sum())
    Tb = oracle.design(tg, t, ztrue)
    best, _, _ = oracle.wlsq(Tb, w, f)
    require(r["chi2"] <= best + 30 + 0.05 * best, "chi2 %g, at the true redshift %g", r["chi2"], best)
    d = {k.upper(): r[k] for k in ("spectype", "subtype", "coeff", "z", "fitmethod")}
    m = world.bare(tg).eval_model(d, {(u.template_type, u.sub_type): u for u in ts})
    have = sum(float(np.sum(s.ivar * (s.flux - s.R.dot(m[s.wavehash]))**2)) for s in tg.spectra)
    require(have <= best + 30 + 0.05 * best, "the reported model has chi2 %g, the one at the true redshift %g", have, best)
    ctx.nontrivial()
    ctx.label(t.template_type)
    ctx.label(t.method)
    ctx.label("igm " + str(t.igm_model))


def warm():
    from checks.c01 import warm as w
    w()


FACETS = [Facet("recover", cases, check, quick=700, thorough=8000, shards=8, setup=warm,
                rule="spectra simulated from one of 1-3 templates (S/N 10-40, masks, 1-3 cameras, 1-2 exposures) at redshifts over "
                     "the whole grid; non-trivial = the reference scan determines the answer uniquely, so the result was judged")]
