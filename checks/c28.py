"""C28: identifiers, byte order, text and process numbers are converted without loss."""
import os
import numpy as np
from hypothesis import strategies as st
from vlib.core import Facet, require, fail

ASSUMPTIONS = ["plates up to 99999, MJDs and fibers of SDSS range; template names without ':::'"]
NAME = st.text(alphabet="ABCDGLOQSTXYZ abz019_:;-/.", min_size=0, max_size=9).filter(lambda s: ":::" not in s and not s.strip().startswith(":") and not s.strip().endswith(":"))


@st.composite
def id_cases(draw):
    n = draw(st.integers(1, 6))
    return dict(rows=[[draw(st.integers(1, 99999)), draw(st.integers(0, 99999)), draw(st.integers(0, 9999))] for _ in range(n)],
                dt=[draw(st.sampled_from(["i2", "i4", "i8", "u2", "u4", "int", "swap"])) for _ in range(3)], form=draw(st.sampled_from(["scalar", "array", "list"])),
                names=[[draw(NAME), draw(st.one_of(st.none(), NAME))] for _ in range(draw(st.integers(1, 5)))],
                narch=draw(st.integers(1, 5)), nb=draw(st.integers(1, 4)), nleg=draw(st.integers(0, 4)), extra=draw(st.integers(0, 3)))


def cast(col, dt):
    if dt == "int":
        return np.array(col)
    if dt == "swap":
        return np.array(col, ">i4")
    if max(col) > np.iinfo(dt).max:
        dt = "i4"
    return np.array(col, dt)


def check_ids(case, ctx):
    from redrock.external.boss import platemjdfiber2targetid as enc, targetid2platemjdfiber as dec
    from redrock.templates import parse_fulltype, make_fulltype
    from redrock.archetypes import split_archetype_coeff
    rows = case["rows"]
    cols = [cast(list(c), d) for c, d in zip(zip(*rows), case["dt"])]
    exact = [p * 10**9 + m * 10**4 + f for p, m, f in rows]
    if case["form"] == "array":
        got = enc(*cols)
        require(np.asarray(got).tolist() == exact, "target IDs of %r are %r, not %r", rows, np.asarray(got).tolist(), exact)
        back = [np.asarray(x).tolist() for x in dec(np.asarray(got, "i8"))]
        require(list(zip(*back)) == [tuple(r) for r in rows], "target IDs decode to %r instead of %r", back, rows)
    else:
        for k, r in enumerate(rows):
            a = [int(c[k]) if d == "int" or case["form"] == "list" else c[k] for c, d in zip(cols, case["dt"])]
            t = enc(*a)
            require(int(t) == exact[k], "target ID of %r is %r, not %d", a, t, exact[k])
            for tt in (int(t), np.int64(t)):
                require(tuple(int(x) for x in dec(tt)) == tuple(r), "target ID %d decodes to %r", t, dec(tt))
    for a, b in case["names"]:
        f = make_fulltype(a, b)
        want = (a.strip(), (b or "").strip())
        require(parse_fulltype(f) == want, "type %r, subtype %r: full type %r is read as %r", a, b, f, parse_fulltype(f))
        require(parse_fulltype(" " + f + "  ") == want, "full type with blanks")
        require((":::" in f) == bool(want[1]), "full type %r", f)
    # archetype coefficients: archetypes first, then the Legendre terms camera by camera
    na, nb, nl = case["narch"], case["nb"], case["nleg"]
    c = np.arange(na + nb * nl, dtype=float) + 1
    ac, lc = split_archetype_coeff(";".join("X_%d" % i for i in range(na)), np.append(c, np.zeros(case["extra"])), nb, nl)
    require(np.asarray(ac).tolist() == c[:na].tolist(), "archetype coefficients %r", ac)
    require(np.asarray(lc).reshape(nb, nl).tolist() == c[na:].reshape(nb, nl).tolist(), "Legendre coefficients %r", lc)
    ctx.label(case["form"])
    ctx.label("small integers", any(d in ("i2", "u2") for d in case["dt"]))
    ctx.nontrivial()


@st.composite
def data_cases(draw):
    kind = draw(st.sampled_from(["i2", "i4", "i8", "f4", "f8", "c16", "u1", "S5", "U5", "rec"]))
    return dict(kind=kind, order=draw(st.sampled_from("<>=")), shape=draw(st.lists(st.integers(0, 4), min_size=1, max_size=3)), seed=draw(st.integers(0, 2**31)),
                stride=draw(st.booleans()), texts=draw(st.lists(st.text(alphabet="ABCxyz 019:;_", max_size=8), min_size=0, max_size=5)),
                req=draw(st.integers(0, 40)), cpus=draw(st.integers(1, 32)), nersc=draw(st.sampled_from(["no", "login", "job"])))


def check_data(case, ctx):
    from redrock.utils import native_endian, encode_column, get_mp, reduced_wavelength
    from astropy.table import Column, Table
    g = np.random.default_rng(case["seed"])
    k, shape = case["kind"], tuple(case["shape"])
    if k == "rec":
        dt = np.dtype([("a", case["order"] + "i4"), ("b", case["order"] + "f8"), ("c", "S3")])
        a = np.zeros(shape, dt)
        a["a"], a["b"], a["c"] = g.integers(-9, 9, shape), g.normal(size=shape), "ab"
    elif k in ("S5", "U5"):
        a = g.integers(0, 10**4, shape).astype(k).astype((case["order"] if k == "U5" else "|") + k)
    elif k == "c16":
        a = (g.normal(size=shape) + 1j * g.normal(size=shape)).astype(case["order"] + k)
    else:
        a = (g.normal(size=shape) * 1000 if k[0] == "f" else g.integers(0, 100, shape)).astype((case["order"] if k != "u1" else "|") + k)
    if case["stride"] and shape[0] > 1:
        a = a[::2]
    keep, was = a.copy(), a.dtype
    b = native_endian(a)
    require(b.dtype.isnative, "%s stays %s", was, b.dtype)
    require(b.shape == a.shape and np.array_equal(b, keep) and b.dtype == was.newbyteorder("="), "%s values change: %r -> %r", was, keep, b)
    require(a.dtype == was and np.array_equal(a, keep), "the argument was modified")
    if was.isnative:
        require(b is a or np.shares_memory(b, a) or b.size == 0, "native data are copied")
    txt = case["texts"]
    if txt:
        c = Column(np.array([t.encode() for t in txt]), name="x")
        if c.dtype.itemsize:
            e = encode_column(c)
            require(e.dtype.kind == "U" and [str(x) for x in e] == [str(x.decode()) for x in np.array([t.encode() for t in txt])], "text column %r -> %r", txt, list(e))
    import multiprocessing
    old, env = multiprocessing.cpu_count, {v: os.environ.pop(v, None) for v in ("NERSC_HOST", "SLURM_JOB_NAME")}
    try:
        multiprocessing.cpu_count = lambda: case["cpus"]
        if case["nersc"] != "no":
            os.environ["NERSC_HOST"] = "x"
        if case["nersc"] == "job":
            os.environ["SLURM_JOB_NAME"] = "y"
        n = get_mp(case["req"])
    finally:
        multiprocessing.cpu_count = old
        for v, x in env.items():
            os.environ.pop(v, None)
            if x is not None:
                os.environ[v] = x
    want = min(case["req"], case["cpus"]) or max(1, case["cpus"] // 2)
    if case["nersc"] == "login":
        want = min(want, 4)
    require(n == want, "%d processes requested on %d CPUs (%s): %r instead of %d", case["req"], case["cpus"], case["nersc"], n, want)
    w = np.sort(g.uniform(3600, 9800, 7))[g.permutation(7)]
    r = reduced_wavelength(w)
    require(np.min(r) == -1 and np.max(r) == 1 and np.allclose(np.diff(r), 2 * np.diff(w) / (w.max() - w.min())), "reduced wavelengths %r", r)
    ctx.label("swapped", not was.isnative)
    ctx.nontrivial(not was.isnative and a.size > 0)


FACETS = [Facet("ids", id_cases, check_ids, quick=2000, thorough=30000, shards=4,
                rule="plate-MJD-fiber of every integer type as scalars and arrays, type names, coefficient lists; non-trivial = always"),
          Facet("data", data_cases, check_data, quick=2000, thorough=30000, shards=4,
                rule="arrays of every type and byte order, text columns, process counts, wavelengths; non-trivial = byte-swapped data")]
