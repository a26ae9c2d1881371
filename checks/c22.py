"""C22: distribution of work over processes."""
import itertools
import numpy as np
from hypothesis import strategies as st
from vlib.core import Facet, require, fail
from vlib import world

ASSUMPTIONS = ["capacities and weights are positive"]


@st.composite
def cases(draw):
    n = draw(st.integers(0, 30))
    m = draw(st.integers(1, 9))
    wk = draw(st.sampled_from(["none", "equal", "small", "wide"]))
    el = dict(none=st.just(1), equal=st.just(3), small=st.integers(1, 6), wide=st.integers(1, 2000))[wk]
    return dict(ids=draw(st.lists(st.one_of(st.integers(-10**6, 10**9), st.integers(world.BIG, world.BIG + 20)), min_size=n, max_size=n, unique=True)), m=m, wk=wk,
                w=draw(st.lists(el, min_size=n, max_size=n)), strid=draw(st.booleans()),
                cap=draw(st.one_of(st.none(), st.lists(st.sampled_from([1, 1, 2, 3, 10, 25]), min_size=m, max_size=m))))


def check(case, ctx):
    from redrock.utils import distribute_work
    ids = [("id%d" % i if case["strid"] else i) for i in case["ids"]]
    W = dict(zip(ids, case["w"]))
    m = case["m"]
    cap = case["cap"]
    args = [m, list(ids)]
    kw = {}
    if case["wk"] != "none":
        kw["weights"] = dict(W)
    if cap is not None:
        kw["capacities"] = list(cap)
    d = distribute_work(*args, **kw)
    require(args[1] == ids and kw.get("weights", W) == W and kw.get("capacities", cap) == cap, "arguments modified")
    c = cap or [1] * m
    require(len(d) == m, "%d lists for %d processes", len(d), m)
    flat = [x for p in d for x in p]
    require(sorted(map(str, flat)) == sorted(map(str, ids)) and len(flat) == len(ids), "work units lost or repeated: %s", d)
    load = [sum(W[x] for x in p) for p in d]
    for p in range(m):
        if not d[p]:
            continue
        small = min(W[x] for x in d[p])
        for q in range(m):
            require(load[p] / c[p] <= (load[q] + small) / c[q] * (1 + 1e-9),
                    "process %d (load %g, capacity %g) has work that process %d (load %g, capacity %g) would finish earlier",
                    p, load[p], c[p], q, load[q], c[q])
    if len(set(W.values())) <= 1 and len(set(c)) == 1:
        k = [len(p) for p in d]
        require(max(k) - min(k) <= 1, "equal work is distributed as %s", k)
        ctx.label("equal work")
    require(distribute_work(m, list(ids), **{k: v for k, v in kw.items()}) == d, "not reproducible")
    ctx.label("capacities", cap is not None)
    ctx.label("idle processes", any(not p for p in d))
    ctx.nontrivial(len(ids) > m > 1)


@st.composite
def opt_cases(draw):
    n = draw(st.integers(1, 8))
    return dict(w=draw(st.lists(st.integers(1, 40), min_size=n, max_size=n)), m=draw(st.integers(2, 4)))


def check_opt(case, ctx):
    from redrock.targets import distribute_targets

    class T:
        def __init__(self, i, n):
            self.id, self.spectra = i, [None] * n
    m = case["m"]
    w = case["w"]
    d = distribute_targets([T(100 - i, n) for i, n in enumerate(w)], m)
    require(sorted(x for p in d for x in p) == sorted(100 - i for i in range(len(w))) and len(d) == m, "targets %s", d)
    got = max(sum(w[100 - x] for x in p) for p in d)
    best = min(max(sum(wi for wi, a in zip(w, asg) if a == p) for p in range(m)) for asg in itertools.product(range(m), repeat=len(w))) \
        if m ** len(w) <= 7000 else None
    if best is None:
        return
    require(got <= (4 / 3 - 1 / (3 * m)) * best + 1e-9, "largest load %d, the best possible distribution has %d", got, best)
    ctx.nontrivial(len(w) > m)
    ctx.label("not optimal", got > best)


FACETS = [Facet("partition", cases, check, quick=6000, thorough=100000, shards=3,
                rule="0-30 work units, 1-9 processes, weights and capacities; non-trivial = more units than processes, several processes"),
          Facet("balance", opt_cases, check_opt, quick=1500, thorough=20000, shards=5,
                rule="targets with 1-40 spectra over 2-4 processes compared with the brute-force optimum; non-trivial = more targets than processes")]
