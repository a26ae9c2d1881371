"""C32: a failing worker process ends the run with an error; it neither hangs nor loses targets silently."""
import os, signal
import numpy as np
from hypothesis import strategies as st
from vlib.core import Facet, require, fail
from vlib import world, procs

ASSUMPTIONS = ["failures are injected through the data (a target that raises or kills its process when a worker unpacks or reads it)",
               "kills while a worker holds a queue half-written are not injected"]


@st.composite
def cases(draw):
    g = draw(world.target_specs(1, 5, npixmin=12, npixmax=20, nspecmax=3, kinds=["normal"]))
    return dict(t=draw(world.template_specs(1, 2, nzmin=5, nzmax=8)), g=g, mp=draw(st.integers(2, 4)),
                victim=draw(st.integers(0, len(g) - 1)), how=draw(st.sampled_from(["raise", "raise", "exit", "kill", "none"])),
                where=draw(st.sampled_from(["unpack", "spectra"])), skip=draw(st.integers(0, 4)))


def check(case, ctx):
    from redrock.targets import Target
    ts = [world.make_template(s) for s in case["t"]]
    mk = lambda: [world.make_target(s, 70 + i, ts) for i, s in enumerate(case["g"])]
    sa, za = world.run_zfind(mk(), ts)
    parent = [None]
    r, w = os.pipe()
    os.write(w, b"x" * case["skip"] if case["skip"] else b"")
    os.set_blocking(r, False)

    class Poisoned(Target):
        def __init__(self, t):
            self.__dict__.update(t.__dict__)

        def trip(self):
            if parent[0] is None or os.getpid() == parent[0] or case["how"] == "none":
                return
            try:                      # let the first `skip` uses in any worker pass
                if os.read(r, 1):
                    return
            except BlockingIOError:
                pass
            fired[0] = True
            if case["how"] == "raise":
                raise ValueError("injected failure")
            if case["how"] == "exit":
                os._exit(3)
            os.kill(os.getpid(), signal.SIGKILL)

        def sharedmem_unpack(self):
            if case["where"] == "unpack":
                self.trip()
            Target.sharedmem_unpack(self)

        def __getattribute__(self, k):
            if k == "spectra" and object.__getattribute__(self, "__dict__").get("_armed") and case["where"] == "spectra":
                object.__getattribute__(self, "trip")()
            return object.__getattribute__(self, k)
    fired = [False]

    def run():
        tg = mk()
        v = case["victim"]
        tg[v] = Poisoned(tg[v])
        tg[v]._armed = True
        parent[0] = os.getpid()
        return world.run_zfind(tg, ts, mp_procs=case["mp"])
    try:
        sb, zb = procs.run(run)
    except procs.Hang as e:
        fail("worker failure (%s) in %s after %d uses, %d processes: %s", case["how"], case["where"], case["skip"], case["mp"], e)
    except (procs.Remote, procs.ChildDied) as e:
        require(case["how"] != "none", "run without any injected failure: %s", e)
        ctx.label("reported as an error: " + case["how"])
        ctx.nontrivial()
        return
    finally:
        os.close(r)
        os.close(w)
    m = world.compare_tables(za, zb) or world.compare_scans(sa, sb)
    require(m is None, "run with a failed worker returned a different answer: %s", m)
    ctx.label("failure not reached", case["how"] != "none")


def warm():
    from checks.c01 import warm as w
    w()


FACETS = [Facet("worker", cases, check, quick=80, thorough=800, shards=8, setup=warm,
                rule="a worker raises, exits or is killed at the k-th use of one target, in the scan or in the refinement, 2-4 "
                     "processes; non-trivial = the failure happened and the run ended with an error")]
