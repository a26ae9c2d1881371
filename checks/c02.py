"""C02: IGM transmission equals the published model, element by element."""
import os
import numpy as np
from hypothesis import strategies as st
from vlib.core import Facet, require, fail

ASSUMPTIONS = ["reference: Inoue et al. 2014 eqs 20-29 with their Table 2 coefficients (copied), "
               "Calura 2012/Irsic 2013 and Kamble 2020 power laws; redshifts -0.01..7"]
from vlib.oracle import transmission, near_edge, LYA


def reference(model, z, lobs):
    return float(transmission(model, z, lobs)[0])


ZS = st.one_of(st.floats(-0.01, 7.0), st.sampled_from([0.0, 1.2, 1.1999, 2.0, 1.9999, 4.7, 4.6999]),
               st.floats(0.0, 1.3))


@st.composite
def cases(draw):
    model = draw(st.sampled_from(["Inoue14", "Inoue14", "Calura12", "Kamble20", "None", None]))
    zs = draw(st.lists(ZS, min_size=1, max_size=4))
    z0 = zs[0]
    lam = st.one_of(
        st.floats(600, 1300).map(lambda r: r * (1 + z0)),          # around the Lyman series at rest
        st.floats(850, 990).map(lambda r: r * (1 + z0)),
        st.floats(700, 12000),
        st.sampled_from([3600.0, 2005.96, 5197.26, 2735.4]))
    ls = draw(st.lists(lam, min_size=1, max_size=6))
    return dict(model=model, z=zs, wave=ls, shape=draw(st.sampled_from(["aa", "aa", "as", "sa", "ss"])),
                always=draw(st.sampled_from([True, True, False])))


def check(case, ctx):
    from redrock.igm import transmission_Lyman
    zs, ls = list(case["z"]), list(case["wave"])
    sh = case["shape"]
    if sh[0] == "s":
        zs = zs[:1]
    if sh[1] == "s":
        ls = ls[:1]
    z = float(zs[0]) if sh[0] == "s" else np.array(zs)
    l = float(ls[0]) if sh[1] == "s" else np.array(ls)
    m = case["model"]
    T = transmission_Lyman(z, l, model=m, always_return_array=case["always"])
    want = np.array([[reference(m, a, b) for b in ls] for a in zs])
    absorbs = bool(np.any(want < 1 - 1e-9))
    if T is None:
        require(not case["always"], "None returned although an array was requested")
        require(not absorbs, "no-absorption answer for %s z=%s wave=%s although transmission is %s", m, zs, ls, want)
        ctx.label("None answer")
        ctx.nontrivial(m not in (None, "None"))
        return
    shp = {"aa": (len(zs), len(ls)), "as": (len(zs),), "sa": (len(ls),), "ss": ()}[sh]
    require(np.shape(T) == shp, "shape %s, expected %s", np.shape(T), shp)
    got = np.asarray(T, float).reshape(len(zs), len(ls))
    for i, a in enumerate(zs):
        for j, b in enumerate(ls):
            require(0 <= got[i, j] <= 1 + 1e-9, "transmission %r outside [0,1] at z=%r wave=%r model=%s", got[i, j], a, b, m)
            if b / (1 + a) > LYA * (1 + 1e-9):
                require(got[i, j] == 1.0, "transmission %r redward of Lyman-alpha at z=%r wave=%r model=%s", got[i, j], a, b, m)
            if near_edge(a, b):
                ctx.label("skipped: at a branch boundary")
                continue
            require(abs(got[i, j] - want[i, j]) <= 1e-9 + 1e-9 * want[i, j],
                    "%s transmission at z=%r, %r A: got %r, model gives %r", m, a, b, float(got[i, j]), float(want[i, j]))
    ctx.label("model %s" % m)
    lim = any(b / (1 + a) < 911.8 for a in zs for b in ls)
    ctx.label("below Lyman limit", lim and m == "Inoue14")
    ctx.label("z<1.2 below limit", m == "Inoue14" and any(b / (1 + a) < 911.8 and a < 1.2 for a in zs for b in ls))
    ctx.label("mixed batch", len(zs) > 1 and np.any(want == 1) and absorbs)
    ctx.nontrivial(absorbs)


def bad_model(case, ctx):
    from redrock.igm import transmission_Lyman
    z = np.array(case["z"])
    try:
        transmission_Lyman(z, np.array([1000.0, 4000.0]), model=case["model"], always_return_array=case["always"])
    except ValueError:
        ctx.nontrivial()
        return
    fail("unknown IGM model %r accepted", case["model"])


bad = lambda: st.fixed_dictionaries(dict(
    model=st.text(min_size=0, max_size=8).filter(lambda s: s not in ("Calura12", "Kamble20", "Inoue14", "None")),
    z=st.lists(st.floats(0, 5), min_size=1, max_size=3), always=st.booleans()))

FACETS = [
    Facet("model", cases, check, quick=16000, thorough=200000, shards=7,
          rule="1..4 redshifts x 1..6 observed wavelengths around the Lyman series/limit and the model's breaks, scalar "
               "and array forms, all models; non-trivial = some element absorbed (or a justified no-absorption answer)"),
    Facet("unknown", bad, bad_model, quick=200, shards=1, rule="random unknown model names; non-trivial = ValueError"),
]
