"""C23: reading and distributing DESI spectra and coadd files."""
import os, tempfile
import numpy as np
import scipy.sparse
from hypothesis import strategies as st
from vlib.core import Facet, require, fail
from vlib import world, fakempi
from vlib import desifiles as D

ASSUMPTIONS = ["synthetic files with the HDUs the reader uses; the fibermap coaddition itself is desispec's",
               "pixels within 1e-6 sigma of the negative-flux threshold or of the resolution-coverage threshold are not judged",
               "the files of one run are all spectra or all coadd files, with the same tile structure"]


@st.composite
def cases(draw):
    fs = draw(D.filespecs(nfmin=1, nfmax=3, share=True))
    ids = [t["tid"] for s in fs for t in s["targets"]]
    sel = draw(st.sampled_from(["all", "all", "ids", "range", "first"]))
    return dict(files=fs, coadd=draw(st.booleans()), cache=draw(st.booleans()), neg=draw(st.sampled_from([5, 3.0, -4.0, 1e9])),
                ids=draw(st.lists(st.sampled_from(ids + [7]), min_size=1, max_size=6, unique=True).filter(lambda x: x != [7])) if sel == "ids" else None,
                first=draw(st.integers(0, 2)) if sel in ("range", "first") else None, n=draw(st.integers(1, 3)) if sel == "range" else None,
                size=draw(st.sampled_from([1, 1, 1, 2, 3, 5])), glob=draw(st.booleans()), cosmics=draw(st.sampled_from([0, 0, 4.0])))


def describe(d):
    """Everything a rank holds, as plain arrays."""
    out = []
    for t in d.local():
        out.append((int(t.id), [(s.band, s.wavehash, np.array(s.wave), np.array(s.flux), np.array(s.ivar), s.R.toarray(), s.Rcsr.toarray())
                                for s in t.spectra]))
    wg = {k: np.array(v) for k, v in d.wavegrids().items()}
    tabs = [np.asarray(getattr(d, k)["TARGETID"]).tolist() for k in ("fibermap", "exp_fibermap", "tsnr2")]
    extra = (np.asarray(d.fibermap["COADD_FIBERSTATUS"]).tolist(), np.asarray(d.fibermap["TARGET_RA"]).tolist(),
             {c: np.asarray(d.tsnr2[c]).tolist() for c in d.tsnr2.colnames if c.startswith("TSNR2_LRG_")})
    return dict(ids=[int(x) for x in d.all_target_ids], local=[int(x) for x in d.local_target_ids()], data=out, wave=wg, tabs=tabs, extra=extra)


def dia(Rd):
    h = Rd.shape[0] // 2
    return scipy.sparse.dia_matrix((Rd, np.arange(h, -h - 1, -1)), shape=(Rd.shape[1],) * 2).toarray()


def check(case, ctx):
    from redrock.external.desi import DistTargetsDESI
    from redrock.targets import Target, Spectrum
    tmp = tempfile.mkdtemp(prefix="c23-")
    paths = []
    for k, s in enumerate(case["files"]):
        paths.append(os.path.join(tmp, "f%d-%d.fits" % (k, s["oseed"] % 1000)))
        D.write(paths[-1], s)
    files = case["files"]
    arg = paths
    if case["glob"] and len(paths) == 1:
        arg = os.path.join(tmp, "f0-*.fits")

    def one(comm):
        d = DistTargetsDESI(arg, coadd=case["coadd"], targetids=case["ids"], first_target=case["first"], n_target=case["n"],
                            comm=comm, cache_Rcsr=case["cache"], negflux_nsig=case["neg"],
                            cosmics_nsig=case["cosmics"] if case["cosmics"] and case["coadd"] else 0)
        return describe(d)

    # selections beyond a file are refused
    beyond = False
    for s in files:
        n = len([i for i in D.file_targets(s) if case["ids"] is None or i in case["ids"]])
        f = case["first"] or 0
        beyond |= f > n or (case["n"] is not None and f + case["n"] > n)
    want, per = D.select(files, case["ids"], case["first"], case["n"])
    if not beyond and not want:
        return
    try:
        got = [one(None)] if case["size"] == 1 else fakempi.World(case["size"]).run(one)
    except Exception as e:
        if beyond and "RuntimeError" in repr(e) or isinstance(e, RuntimeError) and beyond:
            ctx.label("selection beyond the file refused")
            return
        raise
    require(not beyond, "a selection beyond the targets of a file is accepted")
    # distribution
    for g in got:
        require(g["ids"] == want, "targets %s, expected %s", g["ids"], want)
        require([i for i, _ in g["data"]] == g["local"], "local ids and local targets differ")
        rows = [i for p in per for i in p]
        require(g["tabs"][0] == rows, "fibermap rows %s, targets of the files %s", g["tabs"][0], rows)
        require(g["tabs"][2] == rows, "TSNR2 rows %s, targets of the files %s", g["tabs"][2], rows)
        exp = []
        for s, p in zip(files, per):
            if not s["coadded"]:
                exp += [s["targets"][i]["tid"] for i, e in D.rows_of(s) if s["targets"][i]["tid"] in p]
        if not files[0]["coadded"]:
            require(g["tabs"][1] == exp, "exposure fibermap rows")
        else:
            require(sorted(set(g["tabs"][1])) == sorted(set(rows)), "exposure fibermap rows")
        byid = {}
        for s, p in zip(files, per):
            for t in s["targets"]:
                byid.setdefault(t["tid"], []).append(t["seed"] % 3600 / 10.)
        require(all(x in byid[i] for i, x in zip(rows, g["extra"][1])), "fibermap columns of another target")
        k = 0
        for s, p in zip(files, per):
            tt = {t["tid"]: t for t in s["targets"]}
            for i in p:
                t = tt[i]
                ne = 1 if s["coadded"] else t["nexp"]
                for b in s["bands"].upper():
                    w = sum(np.float32(t["seed"] % 1000 + e + "BRZ".index(b)) for e in range(ne))
                    v = g["extra"][2]["TSNR2_LRG_" + b][k]
                    require(abs(v - w) <= 1e-3 * max(1, w), "TSNR2_LRG_%s of target %d is %r, expected %r", b, i, v, w)
                k += 1
    held = [i for g in got for i in g["local"]]
    require(sorted(held) == sorted(want), "targets held by the processes: %s, expected %s", held, want)
    # the spectra
    masked = 0
    for g in got:
        for tid, sp in g["data"]:
            ex = D.exposures(files, tid, abs(case["neg"]), per)
            if case["coadd"]:
                if case["cosmics"]:
                    specs = [Spectrum(w, f.copy(), v.copy(), scipy.sparse.dia_matrix((R, np.arange(R.shape[0] // 2, -(R.shape[0] // 2) - 1, -1)), shape=(len(w),) * 2), band=b)
                             for b, w, f, v, R, near in ex]
                    for s, (_, _, _, v, _, _) in zip(specs, ex):
                        s.ivar = v.copy()
                    t = Target(tid, specs)
                    t.compute_coadd(cosmics_nsig=case["cosmics"])
                    ref = [(s.band, s.wave, s.flux, s.ivar, s.R.toarray()) for s in t.spectra]
                    if any(n.any() for *_, n in ex):
                        continue
                else:
                    ref = []
                    for b in list(dict.fromkeys(e[0] for e in ex)):
                        E = [e for e in ex if e[0] == b]
                        W = sum(e[3] for e in E)
                        F = sum(e[2] * e[3] for e in E)
                        ok = W > 0
                        fl = np.where(ok, F / np.where(ok, W, 1), sum(e[2] for e in E) / len(E))
                        R = sum(dia(e[4] * e[3]) for e in E) / np.where(ok, W, 1)
                        rs = R.sum(axis=1)
                        W = np.where(np.abs(rs - 0.99) < 1e-6, np.nan, np.where(rs < 0.99, 0, W))
                        near = np.any([e[5] for e in E], axis=0)
                        W[near], fl[near] = np.nan, np.nan
                        R = R if not near.any() else None
                        ref.append((b, E[0][1], fl, W, R))
            else:
                ref = [(b, w, np.where(near, f, f), np.where(near, np.nan, v), dia(R)) for b, w, f, v, R, near in ex]
            require([s[0] for s in sp] == [r[0] for r in ref], "target %d has spectra of bands %s, files hold %s", tid, [s[0] for s in sp], [r[0] for r in ref])
            for k, (s, r) in enumerate(zip(sp, ref)):
                require(s[1] == r[0] and np.array_equal(s[2], r[1]), "wavelengths of target %d spectrum %d", tid, k)
                for name, x, y in (("flux", s[3], r[2]), ("ivar", s[4], r[3])):
                    j = np.isfinite(y)
                    require(np.all(np.isfinite(x)), "%s of target %d spectrum %d is not finite", name, tid, k)
                    bad = j & ~np.isclose(x, y, rtol=1e-6, atol=1e-6 * np.max(np.abs(y[j]), initial=0))
                    if name == "flux" and case["coadd"]:
                        bad &= r[3] > 0
                    if bad.any():
                        i = np.flatnonzero(bad)[0]
                        fail("target %d band %s spectrum %d pixel %d: %s %r, file says %r", tid, s[0], k, i, name, float(x[i]), float(y[i]))
                if r[4] is not None:
                    require(np.allclose(s[5], r[4], rtol=1e-6, atol=1e-7), "resolution of target %d spectrum %d", tid, k)
                require(np.array_equal(s[5], s[6]), "Rcsr is not the resolution of target %d spectrum %d", tid, k)
                masked += int((s[4] == 0).any())
    wg = {}
    for s, p in zip(files, per):
        if p:
            wg.update(D.waves(s["npix"], s["bands"]))
    for g in got:
        require(set(g["wave"]) == set(wg) and all(np.array_equal(wg[b], g["wave"][b]) for b in wg), "wavelength grids")
    ctx.label("several files", len(files) > 1)
    ctx.label("a target in two files", len(set(i for p in per for i in p)) < len([i for p in per for i in p]))
    ctx.label("selection", case["ids"] is not None or case["first"] is not None)
    ctx.label("several processes", case["size"] > 1)
    ctx.label("coadd files", files[0]["coadded"])
    ctx.nontrivial(masked > 0 and len(want) > 1)


@st.composite
def many_cases(draw):
    """A file with more spectra than are broadcast at once."""
    n = draw(st.sampled_from([10001, 9999, 10000, 12345, 20000, 20001]))
    nt = draw(st.sampled_from([40, 90]))
    seed = draw(st.integers(0, 2**31))
    g = world.rng(seed)
    cut = np.sort(g.choice(np.arange(1, n), nt - 1, replace=False))
    nexp = np.diff(np.concatenate([[0], cut, [n]]))
    ids = g.permutation(2 * nt)[:nt] + world.BIG
    tg = [dict(tid=int(ids[i]), seed=int(g.integers(0, 2**31)), nexp=int(nexp[i]), fs=[0], objtype="TGT", junk=bool(i % 2), dead=False, sig=[0.6, 0.9, 1.3][i % 3],
               rk=["gauss", "norm"][i % 2], snr=5., tmpl=0, zfrac=0.5) for i in range(nt)]
    f = dict(coadded=False, targets=tg, oseed=seed, shuffle=draw(st.booleans()), bands="b", npix=draw(st.sampled_from([12, 14])), mask=draw(st.booleans()), tiles=False)
    return dict(files=[f], coadd=False, cache=False, neg=5, ids=None, first=None, n=None, size=draw(st.sampled_from([2, 3])), glob=False, cosmics=0)


def warm():
    import redrock.external.desi  # noqa


FACETS = [Facet("read", cases, check, quick=500, thorough=8000, shards=8, setup=warm,
                rule="1-3 spectra or coadd files of 1-4 targets with exposures in any order, NaN/inf/negative/masked pixels, with and without "
                     "mask HDU, missing bands, targets in several files, selections by id or range (also unknown ids or beyond the end), 1-5 emulated "
                     "MPI processes; non-trivial = several targets and masked pixels were compared"),
          Facet("many", many_cases, check, quick=2, thorough=30, shards=2, setup=warm,
                rule="one file of 9999 to 20001 exposures (more than are sent at once) of 40 or 90 targets, 2-3 emulated MPI processes, otherwise as above; "
                     "non-trivial = as above")]
