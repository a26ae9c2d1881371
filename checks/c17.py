"""C17: re-using a saved chi2 scan gives the result of the original run."""
import os, tempfile, shutil
import numpy as np
from hypothesis import strategies as st
from vlib.core import Facet, require
from vlib import world, oracle
from checks.c16 import prior_file

ASSUMPTIONS = ["the file stores chi2 in single precision: equality with the original run is judged where that rounding leaves the "
               "order of the scan minima unchanged; a second re-use must always reproduce the first exactly"]


@st.composite
def cases(draw):
    g = draw(world.target_specs(1, 4, npixmin=20, npixmax=40, nspecmax=2))
    n = len(g)
    t = draw(world.template_specs(1, 3, nzmin=6, nzmax=20))
    from checks import c30
    arch = []
    if draw(st.integers(0, 3)) == 0:
        # templates of one type would lead to equal archetype fits at the same redshift, of which either is kept
        t = list({x["spectype"]: x for x in t}.values())
        arch = draw(c30.archs(t))
    return dict(t=t, g=g, nminima=draw(st.integers(1, 4)), a=arch, prior=draw(st.sampled_from([None, None, "gaussian", "lorentzien"])), seed=draw(st.integers(0, 2**31)),
                sub=draw(st.lists(st.integers(0, n - 1), min_size=1, max_size=n, unique=True)),
                nminima2=draw(st.integers(1, 4)))


def order(x):
    n = len(x)
    ok = [i for i in range(n) if (i == 0 or x[i] <= x[i - 1]) and (i == n - 1 or x[i] <= x[i + 1])]
    v = [x[i] for i in ok]
    if len(set(v)) < len(v):
        return None
    return [ok[i] for i in np.argsort(v)]


def check(case, ctx):
    from redrock.results import write_zscan, read_zscan_redrock
    ts = [world.make_template(s) for s in case["t"]]
    ids = [world.BIG + i for i in range(len(case["g"]))]
    def mk(which):
        return [world.make_target(case["g"][i], ids[i], ts) for i in which]
    every = list(range(len(ids)))
    d = tempfile.mkdtemp(prefix="vrr")
    try:
        p0, q0 = s0, t0 = world.run_zfind(mk(every), ts, nminima=case["nminima"])
        kw = {}
        if case["a"]:
            from checks import c30
            os.mkdir(os.path.join(d, "arch"))
            kw.update(archetypes=c30.load(case["a"], os.path.join(d, "arch")), per_camera=False, deg_legendre=case["seed"] % 3)
        if case["prior"]:
            kw["priors"] = os.path.join(d, "priors.fits")
            prior_file(kw["priors"], ids, ts, case["prior"], np.random.default_rng(case["seed"]))
        if kw:
            s0, t0 = world.run_zfind(mk(every), ts, nminima=case["nminima"], **kw)
        f1, f2 = os.path.join(d, "a.h5"), os.path.join(d, "b.h5")
        write_zscan(f1, p0, q0)
        stored = read_zscan_redrock(f1)
        require(set(stored) == set(ids), "stored scan has targets %s", sorted(stored))
        for i in ids:
            require(set(stored[i]) == set(p0[i]), "stored scan has templates %s", sorted(stored[i]))
            for ft in p0[i]:
                for c in ("zchi2", "penalty", "zcoeff"):
                    a, b = np.asarray(p0[i][ft][c]), np.asarray(stored[i][ft][c])
                    require(a.shape == b.shape and np.allclose(a, b, rtol=1e-6, atol=1e-30), "stored %s of target %d, %s", c, i, ft)
                require(np.array_equal(p0[i][ft]["redshifts"], stored[i][ft]["redshifts"]), "stored redshifts of %s", ft)
        sub = case["sub"]
        s1, t1 = world.run_zfind(mk(sub), ts, nminima=case["nminima"], chi2_scan=f1, **kw)
        require(list(dict.fromkeys(t1["targetid"])) == [ids[i] for i in sub], "targets %s", list(dict.fromkeys(t1["targetid"])))
        for i in sub:
            tid = ids[i]
            same = True
            for ft in s0[tid]:
                o64 = order(s0[tid][ft]["zchi2"] + s0[tid][ft]["penalty"])
                x, dx = stored[tid][ft], s0[tid][ft]["zchi2"] - p0[tid][ft]["zchi2"]
                o32 = order(x["zchi2"] + x["penalty"] + dx)
                p32 = order((x["zchi2"] + dx).astype("f4") + x["penalty"])     # the prior may be added in the precision of the file
                same = same and o64 is not None and o64 == o32 == p32
            c = np.sort(np.asarray(t0["chi2"])[np.asarray(t0["targetid"]) == tid])
            m = np.sort([np.min(x["zchi2"] + x["penalty"]) for x in s0[tid].values()])
            if any(np.any(np.diff(x) <= 1e-12 * abs(x[:-1])) for x in (c, m)) and (kw or any(np.any(x.ivar) for x in mk([i])[0].spectra)):
                ctx.label("equally good rows")
                continue
            if not same:
                ctx.label("rounding changes the order of minima")
                continue
            m = world.compare_tables(t0, t1, ids=[tid])
            require(m is None, "re-used scan: %s", m)
            ctx.nontrivial()
        ctx.label("archetypes", bool(case["a"]))
        ctx.label("prior", bool(case["prior"]))
        ctx.label("subset", len(sub) < len(ids))
        ctx.label("reordered", sub != sorted(sub))
        # a second generation is exact
        s1, t1 = world.run_zfind(mk(every), ts, nminima=case["nminima2"], chi2_scan=f1)
        write_zscan(f2, s1, t1)
        s2, t2 = world.run_zfind(mk(every), ts, nminima=case["nminima2"], chi2_scan=f2)
        m = world.compare_tables(t1, t2) or world.compare_scans(s1, s2)
        require(m is None, "scan re-used twice: %s", m)
        ctx.label("other nminima", case["nminima2"] != case["nminima"])
    finally:
        shutil.rmtree(d, ignore_errors=True)


def warm():
    from checks.c01 import warm as w
    w()


FACETS = [Facet("reuse", cases, check, quick=300, thorough=5000, shards=8, setup=warm,
                rule="1-4 targets x 1-3 templates; scan written, re-read for the same, fewer or reordered targets; with or without "
                     "archetypes and a prior file; non-trivial = a table was compared exactly with the original run")]
