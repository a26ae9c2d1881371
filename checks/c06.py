"""C06: changing flux units or the order/partition of the spectra does not change the answer."""
import numpy as np
from hypothesis import strategies as st
from vlib.core import Facet, require
from vlib import world, oracle

ASSUMPTIONS = ["flux scaling by powers of two (exact in binary arithmetic), so equality is exact",
               "templates with the [OII] penalty are excluded from the unit change: that penalty is linear in flux",
               "non-negative (NMF) fits are excluded from the unit change: the solver's tolerance is absolute"]


@st.composite
def cases(draw):
    c = dict(t=draw(world.template_specs(1, 3, nzmin=8, nzmax=24, methods=("PCA",),
                                         types=[("QSO", "HIZ"), ("QSO", ""), ("STAR", "A"), ("STAR", "M"), ("X", "")])),
             g=draw(world.target_specs(1, 2, npixmin=24, npixmax=60, nspecmax=2)),
             k=draw(st.integers(-16, 16).filter(bool)), nminima=draw(st.integers(1, 4)))
    return c


def check(case, ctx):
    ts = [world.make_template(s) for s in case["t"]]
    f = 2.0 ** case["k"]
    def targets(f):
        gs = [world.make_target(s, 11 + i, ts) for i, s in enumerate(case["g"])]
        for g in gs:
            for s in g.spectra:
                s.flux = s.flux * f
                s.ivar = s.ivar / f**2
        return gs
    sa, za = world.run_zfind(targets(1.0), ts, nminima=case["nminima"])
    sb, zb = world.run_zfind(targets(f), ts, nminima=case["nminima"])
    zb["coeff"] = zb["coeff"] / f
    m = world.compare_tables(za, zb, rtol=1e-12)
    require(m is None, "flux scaled by %g: %s", f, m)
    for t in sb:
        for ft in sb[t]:
            sb[t][ft]["zcoeff"] = sb[t][ft]["zcoeff"] / f
    m = world.compare_scans(sa, sb, rtol=1e-12)
    require(m is None, "flux scaled by %g: %s", f, m)
    ctx.nontrivial(any(g["kind"] == "normal" for g in case["g"]))


@st.composite
def order_cases(draw):
    return dict(t=draw(world.template_specs(1, 3, nzmin=8, nzmax=16, methods=("PCA", "NMF"))),
                g=draw(world.target_specs(1, 1, ncam=(2, 3), npixmin=24, npixmax=40, nspecmax=3,
                                          kinds=["normal", "normal", "noise"])),
                perm=draw(st.permutations(list(range(9)))))


def check_order(case, ctx):
    from redrock.zscan import calc_zchi2_targets
    ts = [world.make_template(s) for s in case["t"]]
    ga = world.make_target(case["g"][0], 3, ts)
    gb = world.make_target(case["g"][0], 3, ts)
    p = [i for i in case["perm"] if i < len(gb.spectra)]
    gb.spectra = [gb.spectra[i] for i in p]
    ra = calc_zchi2_targets(*world.dist([ga], ts))[3]
    rb = calc_zchi2_targets(*world.dist([gb], ts))[3]
    w, f = oracle.data(ga)
    chi0 = np.sum(w * f**2)
    for ft in ra:
        a, b = ra[ft]["zchi2"], rb[ft]["zchi2"]
        well = [oracle.wlsq(oracle.design(ga, t, z), w, f)[2] < 1e4 for t in ts
                if (t.template_type + (":::" + t.sub_type if t.sub_type else "")) == ft for z in t.redshifts]
        well = np.array(well)
        require(np.all(np.abs(a - b)[well] <= 1e-7 * chi0 + 1e-7 * np.abs(a[well])),
                "order of the spectra changes chi2 of %s: %s vs %s", ft, a[well][:3], b[well][:3])
        ctx.nontrivial(p != sorted(p) and well.any())


def warm():
    from checks.c01 import warm as w
    w()


FACETS = [Facet("units", cases, check, quick=700, thorough=10000, shards=8, setup=warm,
                rule="full fit of 1-2 targets with flux scaled by 2^-16..2^16 and ivar accordingly; "
                     "non-trivial = at least one target with signal"),
          Facet("order", order_cases, check_order, quick=500, thorough=6000, shards=6,
                rule="spectra of a multi-camera, multi-exposure target permuted; non-trivial = a real permutation with a "
                     "well-conditioned redshift")]
