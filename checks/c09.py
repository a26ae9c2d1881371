"""C09: MPI runs give the serial answer on the root process for every process count and schedule."""
import os, tempfile
import numpy as np
from hypothesis import strategies as st
from vlib.core import Facet, require, fail
from vlib import world, fakempi
from checks.c16 import write as write_prior

ASSUMPTIONS = ["MPI is emulated in one process: ranks are threads, one runs at a time, messages are pickled; the schedule is drawn",
               "both buffered and synchronous (rendezvous) sends are explored; a state in which no rank can proceed is a deadlock"]


@st.composite
def cases(draw):
    g = draw(world.target_specs(1, 6, npixmin=16, npixmax=32, nspecmax=3))
    return dict(t=draw(world.template_specs(1, 3, nzmin=5, nzmax=14)), g=g, size=draw(st.integers(1, 5)),
                sched=draw(st.lists(st.integers(0, 4), min_size=1, max_size=40)), sync=draw(st.booleans()),
                nminima=draw(st.integers(1, 4)), only_root=draw(st.booleans()), root=draw(st.sampled_from([0, 0, 1])),
                strid=draw(st.booleans()), mode=draw(st.sampled_from(["plain", "plain", "scan", "prior"])),
                mp=draw(st.sampled_from([1, 1, 4])))


def check(case, ctx):
    from redrock.targets import DistTargetsCopy
    from redrock.templates import DistTemplate
    from redrock.zfind import zfind
    from redrock.results import write_zscan
    ts = [world.make_template(s) for s in case["t"]]
    n, size = len(case["g"]), case["size"]
    root = case["root"] % size
    ids = [("T%d" % (900 - 7 * i) if case["strid"] and case["mode"] == "plain" else world.BIG + 900 - i) for i in range(n)]

    def mk():
        out = []
        for i, s in zip(ids, case["g"]):
            t = world.make_target(s, i, ts)
            t.meta["NUM"] = s["seed"] % 89
            out.append(t)
        return out
    with tempfile.TemporaryDirectory() as d:
        kw = dict(nminima=case["nminima"])
        if case["mode"] == "prior":
            kw["priors"] = os.path.join(d, "p.fits")
            z0 = float(np.median(ts[0].redshifts))
            write_prior(kw["priors"], ids[:1], [z0], [0.2], "gaussian")
        if case["mode"] == "scan":
            kw["chi2_scan"] = os.path.join(d, "s.h5")
            s, z = world.run_zfind(mk(), ts)
            write_zscan(kw["chi2_scan"], s, z)
        sa, za = world.run_zfind(mk(), ts, **kw)

        def rank(comm):
            tg = mk() if (comm.rank == root or not case["only_root"]) else []
            dt = DistTargetsCopy(tg, comm=comm, root=root)
            wg = dt.wavegrids()
            dtm = [DistTemplate(t, wg, comm=comm) for t in ts]
            local = list(dt.local_target_ids())
            require([t.id for t in dt.local()] == local, "local targets are not the local ids")
            require(list(dt.all_target_ids) == ids, "global target list %s", list(dt.all_target_ids))
            return (local,) + tuple(zfind(dt, dtm, mp_procs=case["mp"], **kw))
        try:
            out = fakempi.World(size, case["sched"], sync=case["sync"]).run(rank)
        except fakempi.Deadlock as e:
            fail("deadlock with %d processes: %s", size, e)
        except fakempi.Mismatch as e:
            fail("mismatched collectives with %d processes: %s", size, e)
    got = [x for o in out for x in o[0]]
    require(sorted(map(str, got)) == sorted(map(str, ids)), "targets over the processes: %s", [o[0] for o in out])
    for r in range(1, size):
        require(out[r][1] is None and out[r][2] is None, "rank %d also returns a result", r)
    _, sb, zb = out[0]
    m = world.compare_tables(za, zb)
    require(m is None, "%d processes: %s", size, m)
    # BLAS may round the [OII] sum of a shorter redshift slice differently in the last bit
    for t in sa:
        for ft in sa[t] if t in sb else ():
            x, y = sa[t][ft]["penalty"], sb[t].get(ft, {}).get("penalty", np.zeros(0))
            if x.shape == y.shape and np.all(np.abs(x - y) <= 1e-9 * (np.abs(x) + np.abs(sa[t][ft]["zcoeff"]).max())):
                sb[t][ft]["penalty"] = x
    m = world.compare_scans(sa, sb)
    require(m is None, "%d processes: %s", size, m)
    ctx.label("more processes than targets", size > n)
    ctx.label("more processes than redshifts", size > min(len(t.redshifts) for t in ts))
    ctx.label("mode " + case["mode"])
    ctx.label("synchronous sends", case["sync"])
    ctx.label("targets on root only", case["only_root"] and size > 1)
    ctx.nontrivial(size > 1 and n > 1)


@st.composite
def bigcases(draw):
    size = draw(st.integers(2, 3))
    return dict(counts=[draw(st.integers(0, 3))] + [draw(st.sampled_from([5001, 5000, 10001, 4999, 10000, 5003, 7])) for _ in range(size - 1)],
                ntype=draw(st.integers(1, 2)), nclass=draw(st.integers(1, 24)), seed=draw(st.integers(0, 10**6)), sync=draw(st.booleans()),
                sched=draw(st.lists(st.integers(0, 4), min_size=1, max_size=12)), nminima=draw(st.integers(1, 2)))


def bigcheck(case, ctx):
    """Thousands of targets on a process (its results go to the root process in several messages).  Every target is a copy of one of a few,
    whose serial answers are the reference."""
    from redrock.targets import DistTargets, Target
    from redrock.templates import DistTemplate
    from redrock.zfind import zfind
    ts = [world.make_template(dict(spectype="STAR", subtype="AM"[k], seed=case["seed"] + k, nbasis=1, nz=5, method="PCA", igm="None", dw=200.0))
          for k in range(case["ntype"])]
    ref = [world.make_target(dict(seed=case["seed"] + 5 * i, tmpl=i, zfrac=0.5, snr=5.0, ncam=1, npix=12, rk="ident"), i, ts)
           for i in range(case["nclass"])]
    counts = case["counts"]
    n = sum(counts)
    if n == 0:
        return
    ids = world.BIG + np.random.default_rng(case["seed"]).permutation(n)
    cls = {int(t): int(i) for t, i in zip(ids, np.random.default_rng(case["seed"] + 1).integers(0, len(ref), n))}
    sa, za = world.run_zfind([Target(10**6 + i, t.spectra) for i, t in enumerate(ref)], ts, nminima=case["nminima"])
    edges = np.concatenate([[0], np.cumsum(counts)])

    class Dist(DistTargets):
        def __init__(self, comm):
            super().__init__([int(t) for t in ids], comm=comm)
            self.mine = [int(t) for t in ids[edges[comm.rank]:edges[comm.rank + 1]]]
            self.data = [Target(t, ref[cls[t]].spectra, meta=dict(NUM=t % 97)) for t in self.mine]

        def _local_target_ids(self):
            return self.mine

        def _local_data(self):
            return self.data

    def rank(comm):
        dt = Dist(comm)
        return zfind(dt, [DistTemplate(t, dt.wavegrids(), comm=comm) for t in ts], nminima=case["nminima"])
    try:
        out = fakempi.World(len(counts), case["sched"], sync=case["sync"]).run(rank)
    except fakempi.Deadlock as e:
        fail("deadlock with %s targets on the processes: %s", counts, e)
    sb, zb = out[0]
    got = np.asarray(zb["targetid"])
    one = case["nminima"] == 1 and case["ntype"] == 1
    require(set(got.tolist()) == set(ids.tolist()), "%s targets on the processes: %d targets in the result", counts, len(set(got.tolist())))
    require(set(sb) == set(ids.tolist()), "%s targets on the processes: %d targets in the scans", counts, len(sb))
    rows = {}
    for i, t in enumerate(got.tolist()):
        rows.setdefault(t, []).append(i)
    order = {t: v for t, v in rows.items()}
    ra = {i: np.flatnonzero(np.asarray(za["targetid"]) == 10**6 + i) for i in range(len(ref))}
    want = np.concatenate([ra[cls[t]] for t in order])
    idx = np.concatenate([order[t] for t in order])
    require(all(len(order[t]) == len(ra[cls[t]]) for t in order), "%s targets on the processes: number of rows of a target", counts)
    for c in za.colnames:
        if c == "targetid":
            continue
        x, y = np.asarray(za[c])[want], np.asarray(zb[c])[idx]
        require(x.shape == y.shape and world.same(x, y, 0), "%s targets on the processes: column %s differs from that of a serial run", counts, c)
    require("NUM" not in zb.colnames or np.array_equal(np.asarray(zb["NUM"]), got % 97), "metadata of another target")
    for t in ids[::max(1, n // 500)].tolist():
        for ft in sa[10**6 + cls[t]]:
            if ft != "meta":
                require(np.array_equal(sa[10**6 + cls[t]][ft]["zchi2"], sb[t][ft]["zchi2"]), "scan of target %s", t)
    ctx.label("several messages from a process", max(counts) >= 5000)
    ctx.nontrivial(max(counts) >= 4999 and not one)


def warm():
    from checks.c01 import warm as w
    w()


FACETS = [Facet("ranks", cases, check, quick=400, thorough=6000, shards=8, setup=warm,
                rule="1-6 targets on 1-5 emulated MPI processes x random schedules x buffered/synchronous sends x plain, re-used scan or "
                     "prior runs, targets on one or all processes; non-trivial = several processes and several targets"),
          Facet("batches", bigcases, bigcheck, quick=6, thorough=80, shards=6, setup=warm,
                rule="one or two processes hold 4999-10001 (or 7) targets each, which are copies of a few; compared with a serial run of "
                     "these few; non-trivial = at least 4999 targets on a process")]
