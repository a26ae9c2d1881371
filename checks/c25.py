"""C25: model spectra are rebinned template x coefficients x IGM, blurred by the resolution."""
import numpy as np
from hypothesis import strategies as st
from vlib.core import Facet, require, fail
from vlib import world, oracle, fakempi

ASSUMPTIONS = ["pixels within 1e-9 of an IGM branch are not judged; single precision of eval_model's output is allowed for"]


@st.composite
def cases(draw):
    t = draw(world.template_specs(1, 4, nzmin=5, nzmax=12, nbmax=4))
    for s in t:
        if s["spectype"] == "QSO":
            s["zlo"] = draw(st.sampled_from([0.1, 1.5, 2.5]))
            s["zhi"] = s["zlo"] + 1.2
    n = draw(st.integers(0, 5))
    return dict(t=t, rows=[dict(k=draw(st.integers(0, len(t) - 1)), z=draw(st.floats(0, 1, width=16)), seed=draw(st.integers(0, 2**31)),
                                zero=draw(st.integers(0, 5)) == 0) for _ in range(n)],
                pad=draw(st.integers(0, 3)), ncam=draw(st.integers(1, 3)), npix=draw(st.integers(8, 40)), R=draw(st.sampled_from(["none", "same", "list"])),
                form=draw(st.sampled_from(["array", "dict"])), size=draw(st.sampled_from([1, 1, 2, 3])), order=draw(st.permutations(list(range(n)))),
                ct=draw(st.sampled_from(["f8", "f4"])), junk=draw(st.booleans()), bands=draw(st.booleans()), ids=draw(st.lists(st.integers(1, 2**62), min_size=n, max_size=n, unique=True)), sigma=draw(st.sampled_from([0.5, 1.0, 1.6])))


def ref(t, coeff, z, wave, R):
    B = oracle.basis_at(t, z, wave)
    m = B.dot(np.asarray(coeff, "f8")[:t.nbasis])
    scale = np.abs(B).dot(np.abs(np.asarray(coeff, "f8")[:t.nbasis]))
    if t.igm_model != "None":
        m = np.where([oracle.near_edge(z, l) for l in wave], np.nan, m)
    if R is not None:
        m = R.toarray().dot(m)
        scale = np.abs(R.toarray()).dot(scale)
    return m, scale.max(initial=0)


def close(got, want, what, tol):
    m, sc = want
    got = np.asarray(got)
    require(got.shape == m.shape, "%s: shape %s", what, got.shape)
    ok = np.isfinite(m)
    bad = ok & ~(np.abs(got - m) <= tol * sc)
    if bad.any():
        i = np.flatnonzero(bad)[0]
        fail("%s pixel %d: model %r, expected %r", what, i, float(got[i]), float(m[i]))


def check(case, ctx):
    from astropy.table import Table
    from redrock.templates import eval_model
    from redrock.targets import Target, Spectrum, DistTargetsCopy
    ts = [world.make_template(s) for s in case["t"]]
    tdict = {(t.template_type, t.sub_type): t for t in ts}
    rows = case["rows"]
    nb = max(t.nbasis for t in ts) + case["pad"]
    tab = Table()
    tab["TARGETID"] = np.array(case["ids"], dtype="i8")
    C = np.zeros((len(rows), nb), case["ct"])
    Z = np.zeros(len(rows))
    for i, r in enumerate(rows):
        t = ts[r["k"]]
        g = world.rng(r["seed"])
        C[i, :t.nbasis] = g.normal(size=t.nbasis) * 10.0**g.integers(-3, 4)
        if case["junk"]:
            C[i, t.nbasis:] = 1e3        # padding of the shared column
        if r["zero"]:
            C[i] = 0
        Z[i] = t.redshifts[0] + r["z"] * (t.redshifts[-1] - t.redshifts[0])
    tab["COEFF"] = C
    tab["Z"] = Z
    tab["SPECTYPE"] = np.array([ts[r["k"]].template_type for r in rows], dtype="U40")
    tab["SUBTYPE"] = np.array([ts[r["k"]].sub_type for r in rows], dtype="U40")
    tab["FITMETHOD"] = np.array([ts[r["k"]].method for r in rows], dtype="U4")
    waves = {"brz"[i]: w for i, w in enumerate(world.cameras(case["ncam"], case["npix"]))}
    Rs = {b: None if case["R"] == "none" else [world.getR(len(w), case["sigma"] * (1 if case["R"] == "same" else 1 + 0.1 * i), kind="norm").tocsr()
                                               for i in range(len(rows))] for b, w in waves.items()}
    keep = tab.copy()
    if case["form"] == "dict":
        out = eval_model(tab, waves, R=None if case["R"] == "none" else Rs, templates=tdict)
        require(set(out) == set(waves), "cameras of the answer")
    else:
        out = {b: eval_model(tab, w, R=Rs[b], templates=tdict) for b, w in waves.items()}
    for b, w in waves.items():
        require(out[b].shape == (len(rows), len(w)), "shape %s", out[b].shape)
        for i, r in enumerate(rows):
            t = ts[r["k"]]
            want = ref(t, C[i], Z[i], w, None if Rs[b] is None else Rs[b][i])
            close(out[b][i], want, "eval_model row %d camera %s" % (i, b), 3e-7)
            close(t.eval(C[i], w, Z[i], R=None if Rs[b] is None else Rs[b][i]), want, "Template.eval row %d camera %s" % (i, b), 1e-8)
    require(all(np.array_equal(keep[c], tab[c]) for c in keep.colnames), "the table was modified")
    if case["form"] == "dict" and case["R"] != "none" and len(waves) > 1:
        try:
            eval_model(tab, waves, R={"b": Rs["b"]}, templates=tdict)
        except ValueError:
            pass
        else:
            fail("resolution of a camera is missing, but no ValueError")
    # per target
    if not rows:
        return

    def targets():
        out = []
        for i in case["order"]:
            sp = []
            for b, w in waves.items():
                R = world.getR(len(w), case["sigma"] * (1 + 0.1 * i), kind="norm")
                sp.append(Spectrum(w, np.zeros(len(w)), np.ones(len(w)), R, band=b if case["bands"] else None))
            out.append(Target(int(tab["TARGETID"][i]), sp))
        return out

    def one(comm):
        T = targets() if comm is None or comm.rank == 0 else None
        d = DistTargetsCopy(T, comm=comm)
        ev = d.eval_models(tab, tdict)
        return [(t.id, [(s.band, s.wave, m[s.wavehash]) for s in t.spectra], len(m)) for t, m in zip(d.local(), ev)], len(ev), len(d.local())
    res = [one(None)] if case["size"] == 1 else fakempi.World(case["size"]).run(one)
    seen = []
    for items, ne, nl in res:
        require(ne == nl, "%d models for %d targets", ne, nl)
        for tid, ms, k in items:
            i = case["ids"].index(tid)
            seen.append(i)
            t = ts[rows[i]["k"]]
            require(k == len(waves), "%d models for %d cameras", k, len(waves))
            for (b, w, m), b0 in zip(ms, waves):
                R = world.getR(len(w), case["sigma"] * (1 + 0.1 * i), kind="norm")
                close(m, ref(t, C[i], Z[i], w, R), "Target.eval_model of target %d camera %s" % (tid, b0), 1e-6)
    require(sorted(seen) == list(range(len(rows))), "targets with models: %s", seen)
    ctx.label("several processes", case["size"] > 1)
    ctx.label("without resolution", case["R"] == "none")
    ctx.label("all-zero coefficients", any(r["zero"] for r in rows))
    ctx.nontrivial(len(rows) > 1)


def warm():
    from checks.c01 import warm as w
    w()


FACETS = [Facet("model", cases, check, quick=800, thorough=10000, shards=8, setup=warm,
                rule="0-5 fits of 1-4 templates (padding of the coefficients, zero coefficients, redshifts over the grid), 1-3 cameras, with, "
                     "without or per-row resolution, array or dictionary form, 1-3 emulated MPI processes; non-trivial = several rows compared")]
