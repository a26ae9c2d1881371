"""C18: the details file keeps what zfind returned."""
import os, tempfile, shutil
import numpy as np
from hypothesis import strategies as st
from vlib.core import Facet, require
from vlib import world, oracle
from checks.c12 import rows_of, fulltype

ASSUMPTIONS = ["columns documented as stored in single precision are compared to 1e-6 relative"]
F32 = ("zerr", "chi2", "zz", "zzchi2", "coeff", "deltachi2")


@st.composite
def cases(draw):
    g = draw(world.target_specs(1, 5, npixmin=12, npixmax=30, nspecmax=2))
    n = len(g)
    return dict(t=draw(world.template_specs(1, 4, nzmin=5, nzmax=14)), g=g, nminima=draw(st.integers(1, 4)),
                ids=draw(st.lists(st.one_of(st.integers(0, 2**62), st.integers(-2**62, -1), st.integers(0, 50), st.integers(world.BIG, world.BIG + 20)), min_size=n, max_size=n, unique=True)),
                sel=draw(st.lists(st.integers(0, n - 1), min_size=1, max_size=n, unique=True)), upper=draw(st.booleans()),
                clobber=draw(st.booleans()), old=draw(st.booleans()), sub=draw(st.booleans()))


def cmp_col(name, a, b):
    a, b = np.asarray(a), np.asarray(b)
    if name in ("spectype", "subtype", "fitmethod"):
        a = np.char.decode(a) if a.dtype.kind == "S" else a
        b = np.char.decode(b) if b.dtype.kind == "S" else b
        return list(a.astype(str)) == list(b.astype(str))
    if a.shape != b.shape:
        return False
    if name in F32:
        # stored as float32, of which the smallest values have fewer digits
        tiny = np.finfo("f4").tiny
        a, b = [np.where(np.abs(x) < tiny, 0.0, x) for x in (a, b)]
    return world.same(a, b, 1e-6 if name in F32 else 0)


def check(case, ctx):
    from redrock.results import write_zscan, read_zscan, read_zfit
    ts = [world.make_template(s) for s in case["t"]]
    ids = case["ids"]
    tg = []
    for i, s in zip(ids, case["g"]):
        t = world.make_target(s, i, ts)
        t.meta["NUM"] = s["seed"] % 97
        tg.append(t)
    scan, tab = world.run_zfind(tg, ts, nminima=case["nminima"])
    d = tempfile.mkdtemp(prefix="vrr")
    try:
        path = os.path.join(d, "new" if case["sub"] else "", "details.h5")
        if case["old"] and not case["sub"]:
            open(path, "wb").write(b"old contents")
        names = list(tab.colnames)
        before = tab.copy()
        write_zscan(path, scan, tab, clobber=case["clobber"])
        require(names == tab.colnames and world.compare_tables(before, tab) is None, "write_zscan modifies the table it is given")
        require(os.listdir(os.path.dirname(path)) == ["details.h5"], "left behind: %s", os.listdir(os.path.dirname(path)))
        for sel in (None, [ids[i] for i in case["sel"]], ids[case["sel"][0]]):
            want = ids if sel is None else (sel if isinstance(sel, list) else [sel])
            up = case["upper"]
            zs, zf = read_zscan(path, select_targetids=sel, upper=up)
            U = (lambda c: c.upper()) if up else (lambda c: c)
            require(set(int(k) for k in zs) == set(want), "read targets %s, asked for %s", sorted(zs), sorted(want))
            require(set(zf.colnames) == set(U(c) for c in names), "columns %s", zf.colnames)
            for t in want:
                a, b = rows_of(tab, t), zf[np.asarray(zf[U("targetid")]) == t]
                require(len(a) == len(b), "target %d has %d rows, read %d", t, len(a), len(b))
                for c in names:
                    require(cmp_col(c, a[c], b[U(c)]), "target %d column %s: read %s, written %s", t, c, np.asarray(b[U(c)])[:2], np.asarray(a[c])[:2])
                for ft in scan[t]:
                    r = zs[t][ft]
                    for c in ("zchi2", "penalty", "zcoeff"):
                        x, y = np.asarray(scan[t][ft][c]), np.asarray(r[c])
                        require(x.shape == y.shape and np.allclose(x, y, rtol=1e-6, atol=1e-30), "scan %s of target %d, %s", c, t, ft)
                    require(np.array_equal(r["redshifts"], scan[t][ft]["redshifts"]), "redshifts of %s", ft)
                    rows = [k for k in range(len(a)) if fulltype(str(a["spectype"][k]), str(a["subtype"][k])) == ft]
                    got = r["zfit"] if "zfit" in r else None
                    require((got is None and not rows) or (got is not None and list(np.asarray(got[U("z")])) == list(np.asarray(a["z"][rows]))),
                            "zfit rows of target %d, %s", t, ft)
            require(len(zf) == sum(len(rows_of(tab, t)) for t in want), "extra rows")
            z2 = read_zfit(path, select_targetids=sel, upper=up)
            require(world.compare_tables(z2, zf) is None, "read_zfit and read_zscan disagree: %s", world.compare_tables(z2, zf))
            require(set(int(k) for k in read_zscan(path, select_targetids=sel, nozfit=True)) == set(want), "nozfit targets")
        import h5py
        with h5py.File(path, "r") as h:
            zb = h["zbest"][()]
            require([int(x) for x in zb["targetid"]] == ids and [int(x) for x in h["targetids"][()]] == ids, "zbest has targets %s", list(zb["targetid"]))
            cols = [c for c in names if c != "znum"]
            require(set(zb.dtype.names) == set(cols), "zbest has columns %s, the table %s", zb.dtype.names, names)
            for k, t in enumerate(ids):
                best = rows_of(tab, t)[0]
                for c in cols:
                    require(cmp_col(c, np.asarray([best[c]]), zb[c][k:k + 1]), "zbest of target %d, column %s: %s, best row %s", t, c, zb[c][k], best[c])
                require(zb["z"][k] == rows_of(tab, t)["z"][0] and zb["zwarn"][k] == rows_of(tab, t)["zwarn"][0], "zbest row of target %d", t)
        ctx.nontrivial(len(ids) > 1)
        ctx.label("subset", len(case["sel"]) < len(ids))
    finally:
        shutil.rmtree(d, ignore_errors=True)


def warm():
    from checks.c01 import warm as w
    w()


FACETS = [Facet("details", cases, check, quick=500, thorough=6000, shards=8, setup=warm,
                rule="zfind output of 1-5 targets (ids over the int64 range) x 1-4 templates written and read back whole, by list, by "
                     "scalar, upper or lower case; non-trivial = several targets")]
