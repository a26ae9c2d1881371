"""C08: the number of worker processes does not change the answer, and no layout hangs."""
import numpy as np
from hypothesis import strategies as st
from vlib.core import Facet, require, fail
from vlib import world, procs

ASSUMPTIONS = ["a run hangs if no process of it uses any CPU time or leaves its wait for 20 s",
               "operating-system scheduling of the workers is not controlled; the set of layouts and loads is generated"]


@st.composite
def cases(draw):
    g = draw(world.target_specs(1, 7, npixmin=20, npixmax=40, nspecmax=4))
    kind = draw(st.sampled_from(["int", "int", "str", "np"]))
    return dict(t=draw(world.template_specs(1, 3, nzmin=6, nzmax=16)), g=g, mp=draw(st.integers(2, 6)),
                ids=draw(st.lists(st.integers(0, 2**60), min_size=len(g), max_size=len(g), unique=True)), idkind=kind,
                nminima=draw(st.integers(1, 4)), prepack=draw(st.booleans()), coadd=draw(st.sampled_from([False, False, True])))


def targets(case, ts):
    ids = [dict(int=int, np=np.int64, str=lambda x: "tgt%d" % x)[case["idkind"]](i) for i in case["ids"]]
    out = []
    for s, i in zip(case["g"], ids):
        t = world.make_target(s, i, ts)
        t.meta["NUM"] = s["seed"] % 89
        if case["coadd"]:
            t.compute_coadd(cache_Rcsr=bool(s["seed"] % 2))
        out.append(t)
    return out, ids


def check(case, ctx):
    ts = [world.make_template(s) for s in case["t"]]
    ta, ids = targets(case, ts)
    sa, za = world.run_zfind(ta, ts, nminima=case["nminima"])
    tb, _ = targets(case, ts)
    before = [(s.flux.copy(), s.ivar.copy(), s.wave.copy(), s.Rcsr.toarray()) for t in tb for s in t.spectra]

    def run():
        if case["prepack"]:
            for t in tb:
                t.sharedmem_pack()
        s, z = world.run_zfind(tb, ts, nminima=case["nminima"], mp_procs=case["mp"])
        # the targets are still usable, with their data
        for t in tb:
            t.sharedmem_unpack()
        ok = [bool(np.array_equal(s_.flux, b[0]) and np.array_equal(s_.ivar, b[1]) and np.array_equal(s_.wave, b[2])
                   and np.array_equal(s_.Rcsr.toarray(), b[3])) for s_, b in zip((x for t in tb for x in t.spectra), before)]
        return s, z, all(ok)
    try:
        sb, zb, ok = procs.run(run)
    except procs.Hang as e:
        fail("%d processes, %d targets: %s", case["mp"], len(ids), e)
    except procs.Remote as e:
        if not e.in_sut:
            raise
        fail("%d processes, %d targets: %s\n%s", case["mp"], len(ids), e, e.tb)
    m = world.compare_tables(za, zb)
    require(m is None, "%d processes: %s", case["mp"], m)
    m = world.compare_scans(sa, sb)
    require(m is None, "%d processes: %s", case["mp"], m)
    require(ok, "spectra changed by the run with %d processes", case["mp"])
    nz = [g["nspec"] for g in case["g"]]
    ctx.label("more processes than targets", case["mp"] > len(ids))
    ctx.label("workloads out of order", nz != sorted(nz, reverse=True))
    ctx.nontrivial(len(ids) > 1)


def warm():
    from checks.c01 import warm as w
    w()


FACETS = [Facet("layout", cases, check, quick=240, thorough=3000, shards=8, setup=warm,
                rule="1-7 targets with 1-4 spectra per camera x 2-6 processes (also more than targets) x id types, serial and parallel "
                     "results compared exactly; non-trivial = at least two targets")]
