"""C01: rebinning returns the exact bin average of the interpolated density, or refuses."""
import numpy as np
from hypothesis import strategies as st
from vlib.core import Facet, require, fail

ASSUMPTIONS = ["IEEE double arithmetic; agreement judged to 1e-9 of the local |y| scale",
               "GPU code path not executed by this check"]


@st.composite
def grids(draw, nmin=3, nmax=30):
    steps = draw(st.lists(st.one_of(st.integers(1, 20), st.integers(1, 5000)), min_size=nmin, max_size=nmax))
    x0 = draw(st.integers(1, 4000))
    ys = draw(st.lists(st.integers(-1000, 1000), min_size=len(steps) + 1, max_size=len(steps) + 1))
    return dict(x0=x0, steps=steps, y=ys)


@st.composite
def cases(draw):
    g = draw(grids())
    # positions in [0,1] of the covered interval, or "at" sample points
    n = draw(st.integers(2, 24))
    edges = draw(st.lists(st.one_of(
        st.tuples(st.just("f"), st.integers(0, 4096)),
        st.tuples(st.just("s"), st.integers(0, len(g["steps"])))), min_size=2, max_size=n))
    mode = draw(st.sampled_from(["none", "scalar", "array", "list"]))
    nz = 1 if mode in ("none", "scalar") else draw(st.integers(1, 4))
    zs = [0] if mode == "none" else draw(st.lists(st.integers(0, 60), min_size=nz, max_size=nz))
    nb = draw(st.sampled_from([0, 0, 1, 2, 3]))
    return dict(g=g, edges=edges, mode=mode, z=zs, nbasis=nb, optargs=draw(st.booleans()),
                via=draw(st.sampled_from(["edges", "edges", "list", "xnew"])))


def build(case):
    g = case["g"]
    x = np.cumsum([g["x0"]] + g["steps"]).astype(float)
    y = np.array(g["y"], float) / 7.0
    return x, y


def average(x, y, lo, hi):
    """Exact average of the piecewise-linear interpolant of (x, y) over [lo, hi]."""
    inside = x[(x > lo) & (x < hi)]
    p = np.concatenate([[lo], inside, [hi]])
    v = np.interp(p, x, y)
    return np.sum(0.5 * (v[1:] + v[:-1]) * np.diff(p)) / (hi - lo)


def check(case, ctx):
    from redrock.rebin import trapz_rebin, centers2edges
    x, y = build(case)
    # redshifts scaled so that every redshifted grid still overlaps
    span = x[-1] / x[0]
    z = np.array(case["z"], float) / 60.0 * min(0.5 * (span - 1), 3.0)
    lo, hi = x[0] * (1 + z.max()), x[-1] * (1 + z.min())
    e = []
    for kind, v in case["edges"]:
        if kind == "f":
            e.append(lo + (hi - lo) * v / 4096.0)
        else:
            e.append(min(max(x[v] * (1 + z[0]), lo), hi))
    e = np.unique(np.clip(np.array(e), lo, hi))
    e = e[np.concatenate([[True], np.diff(e) > 1e-6 * hi])]
    if len(e) < 2:
        return
    kw = {}
    edges = e
    if case["via"] == "xnew":
        if len(e) < 3:
            return
        c = 0.5 * (e[1:] + e[:-1])
        edges = centers2edges(c)
        require(len(edges) == len(c) + 1, "centers2edges length")
        require(np.allclose(edges[1:-1], 0.5 * (c[1:] + c[:-1]), rtol=1e-12), "interior edges are not halfway between centres")
        require(np.allclose([c[0] - edges[0], edges[-1] - c[-1]], [edges[1] - c[0], c[-1] - edges[-2]], rtol=1e-7),
                "outer edges do not mirror the first/last bin")
        if edges[0] < lo or edges[-1] > hi or np.any(np.diff(edges) <= 1e-6 * hi):
            return
        kw["xnew"] = c
    elif case["via"] == "list":
        kw["edges"] = [float(v) for v in e]
    else:
        kw["edges"] = e
    if case["optargs"]:
        kw.update(xmin=lo, xmax=hi, edge_min=edges[0], edge_max=edges[-1])
    nb = case["nbasis"]
    if nb == 0:
        yy = y
    else:
        yy = np.array([np.roll(y, k) * (k + 1) for k in range(nb)])
    if case["mode"] == "scalar":
        kw["myz"] = float(z[0])
    elif case["mode"] == "array":
        kw["myz"] = z
    elif case["mode"] == "list":
        kw["myz"] = [float(v) for v in z]
    x_in, y_in, e_in = x.copy(), yy.copy(), np.array(edges)
    out = np.asarray(trapz_rebin(x, yy, **kw))
    nbin = len(edges) - 1
    shape = (nbin,) if nb == 0 else (nbin, nb)
    if case["mode"] in ("array", "list"):
        shape = (len(z),) + shape
    require(out.shape == shape, "shape %s, documented %s", out.shape, shape)
    full = out.reshape(len(z), nbin, max(nb, 1))
    y2 = yy.reshape(max(nb, 1), -1)
    for iz in range(len(z)):
        xz = x * (1 + z[iz])
        for b in range(y2.shape[0]):
            tol = 1e-9 * (np.max(np.abs(y2[b])) + 1e-300)
            for i in range(nbin):
                want = average(xz, y2[b], edges[i], edges[i + 1])
                got = full[iz, i, b]
                require(abs(got - want) <= tol, "bin %d (z=%g, basis %d): got %r, bin average is %r",
                        i, z[iz], b, float(got), float(want))
    require(np.array_equal(x, x_in) and np.array_equal(yy, y_in), "inputs modified")
    ns = np.array([np.sum((x * (1 + z[0]) > a) & (x * (1 + z[0]) < b)) for a, b in zip(edges[:-1], edges[1:])])
    ctx.label("bin inside one sample interval", (ns == 0).any())
    ctx.label("bin with many samples", (ns > 2).any())
    ctx.label("edge on a sample", np.isin(edges, x * (1 + z[0])).any())
    ctx.label("edge at end of coverage", edges[0] == lo or edges[-1] == hi)
    ctx.label("batch over z", len(z) > 1)
    ctx.label("multi basis", nb > 1)
    ctx.nontrivial(nbin >= 2 and len(set(ns > 0)) + len(z) + nb > 2)


@st.composite
def reject_cases(draw):
    g = draw(grids())
    kind = draw(st.sampled_from(["below", "above", "both", "shorty", "longy", "zhigh", "zlow"]))
    return dict(g=g, kind=kind, eps=draw(st.sampled_from([1e-9, 1e-6, 1e-3, 0.1, 0.5])),
                nbasis=draw(st.sampled_from([0, 1, 2])), n=draw(st.integers(1, 5)),
                mode=draw(st.sampled_from(["none", "scalar", "array"])))


def check_reject(case, ctx):
    from redrock.rebin import trapz_rebin
    x, y = build(case)
    k, eps = case["kind"], case["eps"]
    lo, hi = x[0], x[-1]
    z = np.array([0.0])
    if k in ("zhigh", "zlow"):
        z = np.array([0.0, 0.0, 0.0])
        if k == "zhigh":
            z[case["n"] % 3] = eps
        else:
            z[case["n"] % 3] = -min(eps, 0.3)
    a, b = lo, hi
    if k == "below" or k == "both":
        a = lo * (1 - eps)
    if k == "above" or k == "both":
        b = hi * (1 + eps)
    edges = np.linspace(a, b, 2 + case["n"])
    if k in ("below", "zhigh"):
        edges = np.linspace(a, lo + 0.7 * (hi - lo), 2 + case["n"])
    if k in ("above", "zlow"):
        edges = np.linspace(lo + 0.3 * (hi - lo), b, 2 + case["n"])
    if k == "shorty":
        y = y[:-min(case["n"], len(y) - 2)]
    if k == "longy":
        y = np.concatenate([y, np.ones(case["n"])])
    if k in ("shorty", "longy"):
        edges = np.linspace(lo, lo + 0.2 * (hi - lo), 2 + case["n"])
    yy = y if case["nbasis"] == 0 else np.array([y] * case["nbasis"])
    kw = {}
    if k in ("zhigh", "zlow") or case["mode"] == "array":
        kw["myz"] = z
    elif case["mode"] == "scalar":
        kw["myz"] = 0.0
    try:
        trapz_rebin(x, yy, edges=edges, **kw)
    except ValueError:
        ctx.nontrivial()
        ctx.label(k)
        return
    fail("no ValueError for %s (x %g..%g, edges %g..%g, z %s, len(x)=%d, len(y)=%d)",
         k, lo, hi, edges[0], edges[-1], z, len(x), yy.shape[-1])


def warm():
    from redrock.rebin import trapz_rebin
    x = np.arange(10.)
    trapz_rebin(x, x, edges=np.array([1., 2.]))
    trapz_rebin(x, np.array([x, x]), edges=np.array([1., 2.]), myz=np.array([0., 0.1]))


FACETS = [
    Facet("average", cases, check, quick=6000, thorough=120000, shards=8, setup=warm,
          rule="random uneven grid, values, edges (also on samples and at the ends of coverage), 0..4 redshifts, "
               "1-d or multi-basis; non-trivial = at least 2 bins and either mixed bin kinds, several z or several bases"),
    Facet("reject", reject_cases, check_reject, quick=1600, thorough=20000, shards=2,
          rule="edges or redshifts pushed outside coverage by 1e-9..50%, or y of another length than x; "
               "non-trivial = refused with ValueError"),
]
