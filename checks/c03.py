"""C03: the template grid used by the scan is the rebinned template times IGM transmission."""
import numpy as np
from hypothesis import strategies as st
from vlib.core import Facet, require, fail
from vlib import world, fakempi
from vlib.oracle import basis_at, near_edge, transmission

ASSUMPTIONS = ["IGM reference and bin-average reference are those of C01/C02 (independent of the code)"]


@st.composite
def cases(draw):
    t = draw(world.template_specs(1, 1, nzmin=2, nzmax=12,
                                  types=[("QSO", "HIZ"), ("QSO", ""), ("GALAXY", ""), ("STAR", "G")]))[0]
    t["igm"] = draw(st.sampled_from(["Inoue14", "Calura12", "Kamble20", "None"]))
    t.update(obs_lo=2200.0, obs_hi=12500.0, dw=10.0)
    if t["spectype"] != "STAR":
        t["zlo"] = draw(st.sampled_from([0.0, 0.5, 2.0, 3.5]))
        t["zhi"] = t["zlo"] + draw(st.sampled_from([0.3, 1.0, 2.5]))
    return dict(t=t, ncam=draw(st.integers(1, 3)), npix=draw(st.integers(5, 30)), size=draw(st.integers(1, 6)),
                grid=draw(st.sampled_from(["linear", "log"])), order=draw(st.permutations([0, 1, 2])))


def expected(t, waves):
    out = {}
    for k, w in waves.items():
        a = np.array([basis_at(t, z, w) for z in t.redshifts])
        for iz, z in enumerate(t.redshifts):
            for j, l in enumerate(w):
                if t.igm_model != "None" and near_edge(z, l):
                    a[iz, j] = np.nan
        out[k] = a
    return out


def check(case, ctx):
    from redrock.templates import DistTemplate
    t = world.make_template(case["t"])
    waves = {}
    cams = world.cameras(case["ncam"], case["npix"])
    for i in case["order"]:
        if i >= len(cams):
            continue
        w = cams[i]
        if case["grid"] == "log":
            w = np.exp(np.linspace(np.log(w[0]), np.log(w[-1]), len(w)))
        waves["brz"[i]] = w
    want = expected(t, waves)
    size = case["size"]

    def one(comm):
        d = DistTemplate(t, {k: w.copy() for k, w in waves.items()}, comm=comm)
        return np.array(d.local.redshifts), {k: np.array(v) for k, v in d.local.data.items()}

    if size == 1:
        pieces = [one(None)]
    else:
        pieces = fakempi.World(size).run(one)
    zs = np.concatenate([p[0] for p in pieces])
    require(np.array_equal(zs, t.redshifts), "redshifts held by the ranks are not the template's, in order")
    for k in waves:
        got = np.concatenate([p[1][k].reshape(len(p[0]), len(waves[k]), t.nbasis) for p in pieces])
        require(got.shape == want[k].shape, "shape %s for %s", got.shape, k)
        ok = np.isfinite(want[k])
        scale = np.max(np.abs(t.flux))
        bad = ok & (np.abs(got - want[k]) > 1e-8 * scale)
        if bad.any():
            iz, il, ib = np.argwhere(bad)[0]
            fail("camera %s z=%r wave=%r basis %d: grid value %r, rebinned template x transmission is %r",
                 k, float(zs[iz]), float(waves[k][il]), int(ib), float(got[iz, il, ib]), float(want[k][iz, il, ib]))
        require(np.all(np.isfinite(got)), "non-finite grid values")
    absorbed = any(transmission(t.igm_model, z, w).min() < 1 - 1e-6 for z in (zs[0], zs[-1]) for w in waves.values())
    ctx.label("absorbed", absorbed)
    ctx.label("several ranks", size > 1)
    ctx.label("more ranks than redshifts", size > len(zs))
    ctx.nontrivial(absorbed or size > 1)


def warm():
    from checks.c01 import warm as w
    w()


FACETS = [Facet("grid", cases, check, quick=1600, thorough=20000, shards=8, setup=warm,
                rule="random template (1-4 bases, z up to 6), 1-3 cameras on linear/log grids, 1-6 ranks; "
                     "non-trivial = IGM absorbs in the grid or several ranks share the redshifts")]
