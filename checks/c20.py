"""C20: shared memory packing is transparent."""
import os, pickle
import numpy as np
import scipy.sparse
from hypothesis import strategies as st
from vlib.core import Facet, require, fail
from vlib import world

ASSUMPTIONS = ["spectra carry a resolution matrix of full width, as all readers produce"]
OPS = ["pack", "unpack", "rcsr", "child", "childpack", "copy"]


@st.composite
def cases(draw):
    return dict(seed=draw(st.integers(0, 2**31)), n=draw(st.integers(1, 40)), nd=draw(st.integers(1, 7)), rcsr=draw(st.booleans()), desc=draw(st.booleans()),
                nspec=draw(st.integers(1, 3)), f32=draw(st.booleans()), band=draw(st.booleans()),
                ops=draw(st.lists(st.sampled_from(OPS), min_size=1, max_size=8)))


def snapshot(t):
    out = []
    for s in t.spectra:
        out.append((np.array(s.wave), np.array(s.flux), np.array(s.ivar), s.Rcsr.toarray(), s.wavehash, s.band, s.nwave))
    return out


def same(a, b):
    return len(a) == len(b) and all(x[4:] == y[4:] and all(np.array_equal(u, v) for u, v in zip(x[:4], y[:4])) for x, y in zip(a, b))


def in_child(fn):
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            with os.fdopen(w, "wb") as f:
                try:
                    pickle.dump(("ok", fn()), f)
                except Exception as e:
                    pickle.dump(("exc", repr(e)), f)
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r, "rb") as f:
        d = f.read()
    os.waitpid(pid, 0)
    k, v = pickle.loads(d)
    if k == "exc":
        fail("in a child process: %s", v)
    return v


def check(case, ctx):
    from redrock.targets import Spectrum, Target
    g = world.rng(case["seed"])
    spectra = []
    for i in range(case["nspec"]):
        n = case["n"]
        nd = min(case["nd"], 2 * n - 1)
        off = np.arange(-(nd // 2), nd - nd // 2)[::-1 if case["desc"] else 1]
        data = g.uniform(0.5, 1, (nd, n))
        R = scipy.sparse.dia_matrix((data, off), shape=(n, n))
        R = scipy.sparse.dia_matrix((data / 1.0, off), shape=(n, n))
        wave = np.sort(g.uniform(3600, 9000, n)) if n < 2 else np.linspace(3600, 4000 + i, n)
        if n < 2 and not case["band"]:
            return
        ty = np.float32 if case["f32"] else np.float64
        spectra.append(Spectrum(wave, g.normal(size=n).astype(ty), g.uniform(0, 2, n).astype(ty), R, R.tocsr() if case["rcsr"] else None,
                                band="brz"[i] if case["band"] else None))
    t = Target(5, spectra, meta=dict(A=1))
    want = [(np.array(s.wave), np.array(s.flux), np.array(s.ivar), s.R.toarray(), s.wavehash, s.band, s.nwave) for s in spectra]
    packed = used = False
    for op in case["ops"]:
        if op == "pack":
            t.sharedmem_pack()
            packed = used = True
        elif op == "unpack":
            t.sharedmem_unpack()
            packed = False
        elif op == "rcsr":
            for s, w in zip(t.spectra, want):
                require(np.array_equal(s.Rcsr.toarray(), w[3]), "Rcsr after %s", case["ops"])
            packed = False
        elif op in ("child", "childpack"):
            if op == "childpack":
                t.sharedmem_pack()
                packed = used = True

            def read():
                t.sharedmem_unpack()
                # what a worker does to its own copy stays there
                r = snapshot(t)
                for s in t.spectra:
                    s.flux *= 0
                    s.R.data *= 0
                return r
            r = in_child(read)
            require(same(r, want), "child process sees other data after %s", case["ops"])
            ctx.nontrivial(packed)
        elif op == "copy":
            # a pickled target, as sent to another MPI process
            u = pickle.loads(pickle.dumps(t))
            u.sharedmem_unpack()
            require(same(snapshot(u), want), "pickled copy after %s", case["ops"])
    for s, w in zip(t.spectra, want):
        for k, v in zip(("wave", "flux", "ivar"), w):
            a = getattr(s, k)
            require(np.array_equal(np.asarray(a), v) and np.asarray(a).dtype == v.dtype, "%s after %s", k, case["ops"])
    t.sharedmem_unpack()
    require(same(snapshot(t), want), "data after %s", case["ops"])
    for s, w in zip(t.spectra, want):
        require(np.array_equal(s.R.toarray(), w[3]), "R after %s", case["ops"])
    require(t.id == 5 and t.meta == dict(A=1), "identity of the target")
    ctx.label("packed and restored", used)


@st.composite
def array_cases(draw):
    return dict(shape=draw(st.lists(st.integers(0, 5), min_size=1, max_size=3)), ty=draw(st.sampled_from(["f4", "f8", "i4", "i8", "u1", "i2"])),
                seed=draw(st.integers(0, 2**31)), order=draw(st.sampled_from(["C", "F", "strided"])))


def check_array(case, ctx):
    from redrock.utils import mp_array
    g = world.rng(case["seed"])
    a = (g.normal(size=case["shape"]) * 100).astype(case["ty"])
    if case["order"] == "F":
        a = np.asfortranarray(a)
    if case["order"] == "strided":
        a = np.repeat(a, 2, axis=0)[::2]
    b = mp_array(a)
    require(b.shape == a.shape and b.dtype == a.dtype and np.array_equal(a, b), "mp_array of %s %s", a.dtype, a.shape)
    if a.size:
        def write():
            b[...] = 7
            return 1
        in_child(write)
        require(np.all(b == 7), "memory is not shared with a child process")
        ctx.nontrivial()


FACETS = [Facet("pack", cases, check, quick=1200, thorough=15000, shards=6,
                rule="histories of pack, unpack, Rcsr access, reading (and scribbling) in a child process, pickling; non-trivial = a child "
                     "process read packed data"),
          Facet("array", array_cases, check_array, quick=300, thorough=3000, shards=2,
                rule="arrays of 1-3 dimensions, types and memory orders; non-trivial = written by a child and seen by the parent")]
