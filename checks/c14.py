"""C14: ZWARN bits say what they document."""
import numpy as np
from hypothesis import strategies as st
from vlib.core import Facet, require
from vlib import world, oracle
from checks.c11 import refine
from checks.c12 import fulltype

ASSUMPTIONS = ["parabola-related bits are judged only where the fine scan determines them within rounding"]
NAMES = {n: getattr(oracle, n) for n in ("SKY LITTLE_COVERAGE SMALL_DELTA_CHI2 NEGATIVE_MODEL MANY_OUTLIERS Z_FITLIMIT "
                                         "NEGATIVE_EMISSION UNPLUGGED BAD_TARGET NODATA BAD_MINFIT POORDATA").split()}


@st.composite
def cases(draw):
    t = draw(world.template_specs(1, 3, nzmin=5, nzmax=18, nbmax=5))
    return dict(t=t, g=draw(world.target_specs(1, 3, npixmin=10, npixmax=40, nspecmax=2,
                                               kinds=["normal"] * 3 + ["noise", "nodata", "few", "few"])),
                nminima=draw(st.integers(1, 4)))


def check(case, ctx):
    ts = [world.make_template(s) for s in case["t"]]
    by = {fulltype(t.template_type, t.sub_type): t for t in ts}
    ids = [world.BIG + 500 - i for i in range(len(case["g"]))]
    tg = [world.make_target(s, i, ts) for s, i in zip(case["g"], ids)]
    npix = {g.id: int(sum((s.ivar > 0).sum() for s in g.spectra)) for g in tg}
    _, tab = world.run_zfind(tg, ts, nminima=case["nminima"])
    for r in tab:
        zw = int(r["zwarn"])
        t = by[fulltype(str(r["spectype"]), str(r["subtype"]))]
        tid = int(r["targetid"])
        who = "target %d rank %d" % (tid, r["znum"])
        require(zw & oracle.RESERVED == 0 and 0 <= zw < 1 << 12, "%s: zwarn %d has a reserved bit", who, zw)
        for b in ("SKY", "MANY_OUTLIERS", "NEGATIVE_EMISSION", "UNPLUGGED", "BAD_TARGET", "NEGATIVE_MODEL", "POORDATA"):
            require(not zw & NAMES[b], "%s: bit %s is never produced by the fit", who, b)
        n = npix[tid]
        require(int(r["npixels"]) == n, "%s: npixels %d, data has %d unmasked pixels", who, r["npixels"], n)
        require(bool(zw & oracle.NODATA) == (n == 0), "%s: NODATA is %s with %d pixels", who, bool(zw & oracle.NODATA), n)
        require(bool(zw & oracle.LITTLE_COVERAGE) == (n < 10 * t.nbasis), "%s: LITTLE_COVERAGE is %s with %d pixels, %d coefficients",
                who, bool(zw & oracle.LITTLE_COVERAGE), n, t.nbasis)
        z, zg = float(r["z"]), t.redshifts
        edge = z < zg[1] or z > zg[-2]
        if min(abs(z - zg[1]), abs(z - zg[-2])) > 1e-12:
            if edge:
                require(zw & oracle.Z_FITLIMIT, "%s: z=%r in the last interval of %r..%r without Z_FITLIMIT", who, z, zg[0], zg[-1])
            elif not zw & oracle.BAD_MINFIT:
                require(not zw & oracle.Z_FITLIMIT, "%s: Z_FITLIMIT at z=%r inside %r..%r", who, z, zg[1], zg[-2])
        e = refine(np.asarray(r["zz"]), np.asarray(r["zzchi2"]))
        if e is not None:
            require(bool(zw & oracle.BAD_MINFIT) == e["bad"], "%s: BAD_MINFIT is %s, fine scan says %s", who, bool(zw & oracle.BAD_MINFIT), e["bad"])
            ctx.label("BAD_MINFIT", e["bad"])
            ctx.nontrivial(0 < n and not e["bad"])
        ctx.label("NODATA", n == 0)
        ctx.label("LITTLE_COVERAGE", 0 < n < 10 * t.nbasis)
        ctx.label("exactly at the coverage threshold", n == 10 * t.nbasis)
        ctx.label("Z_FITLIMIT", edge)


@st.composite
def cov_cases(draw):
    c = draw(cases())
    c["t"] = c["t"][:1]
    g = dict(c["g"][0], kind="normal", mask=0.0, nspec=1, ncam=1, npix=60)
    c["g"] = [g]
    c["t"][0] = dict(c["t"][0], nbasis=draw(st.integers(1, 3)))
    c["left"] = 10 * c["t"][0]["nbasis"] + draw(st.integers(-1, 1))
    return c


def check_cov(case, ctx):
    """Exactly around the 10-pixels-per-coefficient threshold."""
    ts = [world.make_template(s) for s in case["t"]]
    g = world.make_target(case["g"][0], 5, ts)
    s = g.spectra[0]
    s.ivar[s.ivar > 0] = 1.0
    good = np.where(s.ivar > 0)[0]
    s.ivar[good[case["left"]:]] = 0
    n = int((s.ivar > 0).sum())
    _, tab = world.run_zfind([g], ts, nminima=case["nminima"])
    for r in tab:
        want = n < 10 * ts[0].nbasis
        require(bool(r["zwarn"] & oracle.LITTLE_COVERAGE) == want, "LITTLE_COVERAGE is %s with %d pixels and %d coefficients",
                bool(r["zwarn"] & oracle.LITTLE_COVERAGE), n, ts[0].nbasis)
        require(not r["zwarn"] & oracle.NODATA, "NODATA with %d pixels", n)
    ctx.nontrivial(n == case["left"])


def check_mask(case, ctx):
    """The documented bit numbers."""
    from redrock.zwarning import ZWarningMask as ZW
    import redrock.zwarning as zw
    for n, v in NAMES.items():
        require(getattr(ZW, n) == v, "%s is %s, documented bit value %d", n, getattr(ZW, n), v)
    for i in range(16, 24):
        require(getattr(ZW, "RESERVED%d" % i) == 1 << i, "RESERVED%d is %d", i, getattr(ZW, "RESERVED%d" % i))
    require(zw.badfit_mask == oracle.BADFIT, "badfit_mask is %d, expected %d", zw.badfit_mask, oracle.BADFIT)
    flags = ZW.flags()
    require(dict(flags) == dict(NAMES, **{"RESERVED%d" % i: 1 << i for i in range(16, 24)}), "flags() %s", flags)
    require([v for _, v in flags] == sorted(v for _, v in flags), "flags() is not sorted")
    ctx.nontrivial()


def warm():
    from checks.c01 import warm as w
    w()


FACETS = [Facet("bits", cases, check, quick=900, thorough=15000, shards=8, setup=warm,
                rule="zfind tables of random worlds incl. no data, few pixels, pure noise; every bit of every row recomputed; "
                     "non-trivial = a row with data and a determined good parabola"),
          Facet("coverage", cov_cases, check_cov, quick=150, thorough=2000, shards=2, setup=warm,
                rule="targets with exactly 10n-1, 10n, 10n+1 unmasked pixels; non-trivial = the count was reached exactly"),
          Facet("mask", lambda: st.just(dict(all=1)), check_mask, quick=1, thorough=1, shards=1, thorough_shards=1,
                rule="the table of bit values (a fixed enumeration)")]
