"""C10: the result for a target depends only on that target's own data."""
import numpy as np
from hypothesis import strategies as st
from vlib.core import Facet, require
from vlib import world, procs

ASSUMPTIONS = ["same process layout in both runs (process layouts are compared by the multiprocessing and MPI properties)"]


@st.composite
def cases(draw):
    g = draw(world.target_specs(2, 5, npixmin=24, npixmax=50, nspecmax=3))
    return dict(t=draw(world.template_specs(1, 3, nzmin=8, nzmax=20)), g=g,
                perm=draw(st.permutations(list(range(len(g))))), sub=draw(st.integers(0, len(g) - 1)),
                ids=draw(st.lists(st.one_of(st.integers(1, 2**60), st.integers(world.BIG, world.BIG + 20)), min_size=len(g), max_size=len(g), unique=True)),
                nminima=draw(st.integers(1, 4)), strid=draw(st.booleans()),
                again=draw(st.sampled_from([False, False, True])))


def check(case, ctx):
    ids = [("T%d" % i if case["strid"] else i) for i in case["ids"]]
    def make(order, ts):
        out = []
        for i in order:
            t = world.make_target(case["g"][i], ids[i], ts)
            t.meta["MAG"] = float(case["g"][i]["seed"] % 1000)
            t.meta["IDX"] = i
            out.append(t)
        return out
    n = len(ids)

    def run(*orders):
        # in a process of its own: what an earlier run leaves behind must not make two wrong answers equal
        def body():
            ts = [world.make_template(s) for s in case["t"]]
            return [world.run_zfind(make(o, ts), ts, nminima=case["nminima"]) for o in orders]
        return procs.fork(body)
    (sa, za), = run(range(n))
    # every target is in the answer, in input order, with its own metadata
    order = [str(x) for x in za["targetid"]]
    want = []
    for i in range(n):
        k = sum(1 for x in order if x == str(ids[i]))
        require(k >= 1, "target %s is missing from the answer", ids[i])
        want += [str(ids[i])] * k
    require(order == want, "rows are not grouped in input order: %s", order)
    require(np.array_equal(za["IDX"], [[str(x) for x in ids].index(o) for o in order]), "metadata of another target")
    # permuted
    (sb, zb), = run(case["perm"])
    m = world.compare_tables(za, zb, order=False)
    require(m is None, "order of the targets changes the answer: %s", m)
    m = world.compare_scans(sa, sb)
    require(m is None, "order of the targets changes the scan: %s", m)
    # alone
    i = case["sub"]
    (sc, zc), = run([i])
    m = world.compare_tables(za, zc, ids=[ids[i]])
    require(m is None, "target fitted alone: %s", m)
    m = world.compare_scans(sa, sc, ids=[ids[i]])
    require(m is None, "target fitted alone: %s", m)
    # after another run of the same process
    if case["again"]:
        _, (sd, zd) = run(case["perm"], [i])
        m = world.compare_tables(zc, zd) or world.compare_scans(sc, sd)
        require(m is None, "target fitted after another run in the same process: %s", m)
    ctx.label("after another run", case["again"])
    ctx.label("different exposure counts", len(set(g["nspec"] for g in case["g"])) > 1)
    ctx.label("a target without data", any(g["kind"] == "nodata" for g in case["g"]))
    ctx.nontrivial(list(case["perm"]) != sorted(case["perm"]))


def warm():
    from checks.c01 import warm as w
    w()
    ts = [world.make_template(dict(spectype="GALAXY", subtype="", seed=5, nbasis=2, nz=7, method=m)) for m in ("PCA", "NMF")]
    ts[1]._subtype = "B"
    g = dict(seed=1, tmpl=0, zfrac=0.5, snr=9.0, ncam=1, npix=23, kind="normal", nspec=2)
    try:
        world.run_zfind([world.make_target(g, 1, ts)], ts)      # compiles and imports what the runs need
    except Exception:
        pass


FACETS = [Facet("independence", cases, check, quick=500, thorough=8000, shards=8, setup=warm,
                rule="2-5 targets (different exposure counts, masks, no data) fitted together, permuted, and one of them "
                     "alone, all output columns and scans compared exactly; non-trivial = a real permutation")]
