"""C13: DELTACHI2 and the SMALL_DELTA_CHI2 flag."""
import tempfile
import numpy as np
from hypothesis import strategies as st
from vlib.core import Facet, require
from vlib import world, oracle

ASSUMPTIONS = ["pairs whose separation is within 1e-9 of the velocity limit, or whose chi2 difference is within 1e-9 of 9, are "
               "accepted either way"]


def expected(chi2, z, bad, lim):
    """deltachi2 (to the best later, well separated good fit), must-flag, may-flag."""
    n = len(chi2)
    d = np.zeros(n)
    sure = np.zeros(n, bool)
    maybe = np.zeros(n, bool)
    for i in range(n):
        alt = []
        for j in range(n):
            if j == i:
                continue
            l = min(lim[i], lim[j])
            v = abs(oracle.dv(z[j], z[i]))
            if j > i and not bad[j] and v > l:
                alt.append(chi2[j] - chi2[i])
            if not bad[j]:
                x = abs(chi2[j] - chi2[i])
                if x < 9 * (1 + 1e-9) + 1e-12 and v >= l * (1 - 1e-9):
                    maybe[i] = True
                if x < 9 * (1 - 1e-9) and v >= l * (1 + 1e-9):
                    sure[i] = True
        d[i] = min(alt) if alt else 0.0
    return d, sure, maybe


def near_limit(z, lim):
    for i in range(len(z)):
        for j in range(i + 1, len(z)):
            l = min(lim[i], lim[j])
            if abs(abs(oracle.dv(z[j], z[i])) - l) < 1e-9 * l:
                return True
    return False


@st.composite
def direct_cases(draw):
    n = draw(st.integers(1, 8))
    z0 = draw(st.floats(0, 3))
    rows = []
    for _ in range(n):
        rows.append([draw(st.one_of(st.floats(0, 40), st.floats(0, 1e5), st.sampled_from([0., 9., 18., 8.999999, 9.000001]))),
                     draw(st.sampled_from([-6e3, -1001, -999, -300, -101, -99, -5, 0, 5, 99, 101, 300, 999, 1001, 6e3, 1e5]))
                     + draw(st.floats(-0.5, 0.5)),
                     draw(st.sampled_from([0, 0, 0, 2, 4, 8, 32, 1024, 1056, 512])),
                     draw(st.sampled_from([1000., 1000., 100.]))])
    return dict(z0=z0, rows=rows, mode=draw(st.sampled_from(["array", "scalar", "default"])),
                sort=draw(st.booleans()))


def check_direct(case, ctx):
    from redrock.zfind import calc_deltachi2
    rows = [list(r) for r in case["rows"]]
    if case["sort"]:
        rows.sort(key=lambda r: (bool(r[2] & oracle.BADFIT), r[0]))
    chi2 = np.array([r[0] for r in rows])
    z = case["z0"] + np.array([r[1] for r in rows]) / oracle.C_KMS * (1 + case["z0"])
    zw = np.array([r[2] for r in rows], dtype=int)
    lim = np.array([r[3] for r in rows])
    if case["mode"] == "array":
        d, flag = calc_deltachi2(chi2, z, zw, dvlimit=lim)
    elif case["mode"] == "scalar":
        lim = np.full(len(rows), lim[0])
        d, flag = calc_deltachi2(chi2, z, zw, dvlimit=float(lim[0]))
    else:
        lim = np.full(len(rows), 1000.0)
        d, flag = calc_deltachi2(chi2, z, zw)
    if near_limit(z, lim):
        ctx.label("at the velocity limit")
        return
    e, sure, maybe = expected(chi2, z, (zw & oracle.BADFIT) != 0, lim)
    require(np.allclose(d, e, rtol=1e-9, atol=1e-9), "deltachi2 %s, expected %s", list(d), list(e))
    require(np.all(flag[sure]) and not np.any(flag[~maybe]), "SMALL_DELTA_CHI2 %s, expected %s", list(flag), list(sure))
    ctx.nontrivial(np.any(e != 0) and np.any(sure) and not np.all(sure))
    ctx.label("mixed limits", len(set(lim)) > 1)
    ctx.label("bad fits", np.any(zw & oracle.BADFIT))


@st.composite
def table_cases(draw):
    t = draw(world.template_specs(1, 4, nzmin=6, nzmax=18))
    stars = draw(st.integers(0, 3)) == 0
    if stars:
        # several stars, closer than galaxies are told apart
        t = draw(world.template_specs(2, 4, types=[("STAR", x) for x in "ABCD"], nzmin=9, nzmax=18))
    arch = draw(st.integers(0, 2)) == 0
    types = list(dict.fromkeys(x["spectype"] for x in t))
    pick = draw(st.lists(st.sampled_from(types), min_size=1, max_size=len(types), unique=True)) if arch else []
    zr = {x: world.default_zgrid(x, 9)[[0, -1]] for x in pick}
    return dict(t=t, g=draw(world.target_specs(1, 3, npixmin=16, npixmax=40, kinds=["normal"] * 3 + ["noise"] * 2 + ["nodata", "few"])),
                nminima=draw(st.integers(1, 5)), a=[draw(world.arch_specs(x, zr[x][0], zr[x][1], namax=4)) for x in pick], nleg=draw(st.integers(0, 2)))


def check_table(case, ctx):
    ts = [world.make_template(s) for s in case["t"]]
    ids = [world.BIG + 500 - i for i in range(len(case["g"]))]
    kw = {}
    if case["a"]:
        from checks.c30 import load
        kw = dict(archetypes=load(case["a"], tempfile.mkdtemp(prefix="c13-")), per_camera=False, deg_legendre=case["nleg"])
    _, tab = world.run_zfind([world.make_target(s, i, ts) for s, i in zip(case["g"], ids)], ts, nminima=case["nminima"], **kw)
    for tid in ids:
        r = tab[np.asarray(tab["targetid"]) == tid]
        chi2, z, zw = (np.asarray(r[c]) for c in ("chi2", "z", "zwarn"))
        lim = np.array([oracle.vlimit(s) for s in r["spectype"]])
        if near_limit(z, lim):
            continue
        e, sure, maybe = expected(chi2, z, (zw & oracle.BADFIT) != 0, lim)
        require(np.allclose(r["deltachi2"], e, rtol=1e-9, atol=1e-9 * np.abs(chi2).max()), "target %d deltachi2 %s, expected %s", tid, list(r["deltachi2"]), list(e))
        flag = (zw & oracle.SMALL_DELTA_CHI2) != 0
        require(np.all(flag[sure]) and not np.any(flag[~maybe]), "target %d SMALL_DELTA_CHI2 %s, expected %s", tid, list(flag), list(sure))
        ctx.nontrivial(np.any(e != 0))
        ctx.label("archetypes", bool(case["a"]))
        ctx.label("stars only", all(x == "STAR" for x in r["spectype"]) and len(r) > 1)
        ctx.label("flagged", np.any(sure))
        ctx.label("star and galaxy limits", len(set(lim)) > 1)
        ctx.label("bad fits", np.any(zw & oracle.BADFIT))


def warm():
    from checks.c01 import warm as w
    w()


FACETS = [Facet("direct", direct_cases, check_direct, quick=4000, thorough=100000, shards=4,
                rule="1-8 random candidates around both velocity limits and the chi2 threshold, with bad-fit bits and scalar/array "
                     "limits; non-trivial = some flagged, some not, some nonzero deltachi2"),
          Facet("table", table_cases, check_table, quick=700, thorough=10000, shards=8, setup=warm,
                rule="zfind tables of random worlds against the pairwise definition; non-trivial = a nonzero deltachi2")]
