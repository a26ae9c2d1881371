"""C05: flux values in masked (zero inverse variance) pixels never influence any result."""
import copy
import numpy as np
from hypothesis import strategies as st
from vlib.core import Facet, require
from vlib import world

ASSUMPTIONS = ["replacement values are finite (non-finite input is scrubbed by the file readers, see the reader property)"]


@st.composite
def cases(draw):
    c = dict(t=draw(world.template_specs(1, 3, nzmin=8, nzmax=20)),
             g=draw(world.target_specs(1, 2, npixmin=24, npixmax=60, nspecmax=3)),
             junk=draw(st.sampled_from([0.0, 1.0, -1e4, 1e8, 1e30, -1e100])), jseed=draw(st.integers(0, 2**31)),
             coadd=draw(st.booleans()), nsig=draw(st.sampled_from([0, 0, 2.0, 5.0])), nminima=draw(st.integers(1, 4)))
    for g in c["g"]:
        g["mask"] = draw(st.sampled_from([0.05, 0.2, 0.5]))
        g["bands"] = c["g"][0]["bands"]
    return c


def check(case, ctx):
    ts = [world.make_template(s) for s in case["t"]]
    def targets(junk):
        gs = [world.make_target(s, 11 + i, ts) for i, s in enumerate(case["g"])]
        nm = 0
        if junk:
            g = world.rng(case["jseed"])
            for t in gs:
                for s in t.spectra:
                    m = s.ivar == 0
                    nm += int(m.sum())
                    s.flux[m] = case["junk"] * g.uniform(0.5, 1.5, m.sum())
        if case["coadd"]:
            for t in gs:
                t.compute_coadd(cosmics_nsig=case["nsig"])
        return gs, nm
    ga, _ = targets(False)
    gb, nm = targets(True)
    sa, za = world.run_zfind(ga, ts, nminima=case["nminima"])
    sb, zb = world.run_zfind(gb, ts, nminima=case["nminima"])
    # every fully coadded masked pixel keeps weight 0, so even the coadd may not let it in
    m = world.compare_scans(sa, sb)
    require(m is None, "changing masked flux changed the scan: %s", m)
    m = world.compare_tables(za, zb)
    require(m is None, "changing masked flux changed the answer: %s", m)
    ctx.label("coadded", case["coadd"])
    ctx.label("coadded with cosmic rejection", case["coadd"] and case["nsig"] > 0)
    ctx.nontrivial(nm > 0)


def warm():
    from checks.c01 import warm as w
    w()


FACETS = [Facet("junk", cases, check, quick=800, thorough=10000, shards=8, setup=warm,
                rule="targets with 5-50% masked pixels whose flux is replaced by values up to 1e100 before (optional) "
                     "coaddition with or without cosmic rejection and the full fit; non-trivial = at least one pixel replaced")]
