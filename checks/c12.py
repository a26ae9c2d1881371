"""C12: the redshift table is the complete, ranked, trimmed merge of the per-template fits."""
import numpy as np
from hypothesis import strategies as st
from vlib.core import Facet, require
from vlib import world, oracle

ASSUMPTIONS = ["fits of the individual templates are taken from runs with one template (their correctness is C04 and C11)",
               "targets with exactly tied chi2 values are compared as sets only"]
SMALL = oracle.SMALL_DELTA_CHI2


@st.composite
def cases(draw):
    t = draw(world.template_specs(2, 4, nzmin=6, nzmax=18))
    return dict(t=t, g=draw(world.target_specs(1, 3, npixmin=16, npixmax=40)), nminima=draw(st.integers(1, 4)),
                perm=draw(st.permutations(list(range(len(t))))))


def rows_of(z, tid):
    return z[np.asarray(z["targetid"]) == tid]


def fulltype(sp, sub):
    return "%s:::%s" % (sp, sub) if sub else "%s" % sp


def check(case, ctx):
    ts = [world.make_template(s) for s in case["t"]]
    ids = [world.BIG + 500 - i for i in range(len(case["g"]))]
    mk = lambda: [world.make_target(s, i, ts) for s, i in zip(case["g"], ids)]
    k = case["nminima"]
    scan, tab = world.run_zfind(mk(), [ts[i] for i in case["perm"]], nminima=k)
    single = [world.run_zfind(mk(), [t], nminima=k) for t in ts]
    need = ["targetid", "z", "zerr", "zwarn", "chi2", "deltachi2", "spectype", "subtype", "coeff", "ncoeff", "znum",
            "npixels", "fitmethod", "zz", "zzchi2"]
    require(set(need) <= set(tab.colnames), "columns missing: %s", sorted(set(need) - set(tab.colnames)))
    require(list(dict.fromkeys(tab["targetid"])) == ids, "targets %s, expected %s", list(dict.fromkeys(tab["targetid"])), ids)
    for tid in ids:
        r = rows_of(tab, tid)
        n = len(r)
        require(n >= 1, "no row for target %d", tid)
        require(list(r["znum"]) == list(range(n)), "znum %s", list(r["znum"]))
        bad = (np.asarray(r["zwarn"]) & oracle.BADFIT) != 0
        require(np.all(np.diff(bad.astype(int)) >= 0), "a bad fit is ranked before a good one")
        for b in (False, True):
            require(np.all(np.diff(np.asarray(r["chi2"])[bad == b]) >= 0), "chi2 is not ascending: %s", list(r["chi2"]))
        # expected rows: per spectral type the best k of all its templates
        cand = []
        for t, (s1, z1) in zip(ts, single):
            for row in rows_of(z1, tid):
                cand.append((t, row))
        exp = []
        tie = False
        for sp in set(t.template_type for t in ts):
            c = sorted([x for x in cand if x[0].template_type == sp],
                       key=lambda x: (bool(x[1]["zwarn"] & oracle.BADFIT), x[1]["chi2"]))
            ctx.label("trimmed", len(c) > k)
            exp += c[:k]
            ch = [x[1]["chi2"] for x in c]
            tie = tie or len(set(ch)) < len(ch)
        exp.sort(key=lambda x: (bool(x[1]["zwarn"] & oracle.BADFIT), x[1]["chi2"]))
        ch = [x[1]["chi2"] for x in exp]
        tie = tie or len(set(ch)) < len(ch)
        require(len(exp) == n, "%d rows, expected %d", n, len(exp))
        if tie:
            ctx.label("ties")
            continue
        for row, (t, e) in zip(r, exp):
            who = "target %d rank %d" % (tid, row["znum"])
            require(str(row["spectype"]) == t.template_type and str(row["subtype"]) == t.sub_type,
                    "%s is %s/%s, expected %s/%s", who, row["spectype"], row["subtype"], t.template_type, t.sub_type)
            require(int(row["ncoeff"]) == t.nbasis and str(row["fitmethod"]) == t.method, "%s: ncoeff %s fitmethod %s", who,
                    row["ncoeff"], row["fitmethod"])
            for c in ("z", "zerr", "chi2", "npixels"):
                require(world.same(row[c], e[c], 1e-12), "%s: %s=%r, fit of the template alone gives %r", who, c, row[c], e[c])
            for c in ("zz", "zzchi2"):
                require(world.same(row[c], e[c], 1e-12), "%s: column %s is not that of the fit", who, c)
            require((int(row["zwarn"]) ^ int(e["zwarn"])) & ~SMALL == 0, "%s: zwarn %d, fit alone %d", who, row["zwarn"], e["zwarn"])
            cf, ce = np.atleast_1d(row["coeff"]), np.atleast_1d(e["coeff"])
            require(world.same(cf[:t.nbasis], ce[:t.nbasis], 1e-10) and np.all(cf[t.nbasis:] == 0),
                    "%s: coeff %s, fit alone %s", who, cf, ce)
        ctx.nontrivial(len(set(x[0].full_type for x in exp)) > 1)
        for t, (s1, z1) in zip(ts, single):
            ft = fulltype(t.template_type, t.sub_type)
            require(set(scan[tid]) == set(fulltype(u.template_type, u.sub_type) for u in ts), "scan keys %s", sorted(scan[tid]))
            for c in ("redshifts", "zchi2", "penalty", "zcoeff"):
                require(world.same(scan[tid][ft][c], s1[tid][ft][c], 1e-12), "scan %s of %s differs from the scan alone", c, ft)
    require(len(tab) == sum(len(rows_of(tab, i)) for i in ids), "rows of unknown targets")
    ctx.label("order of templates changed", list(case["perm"]) != sorted(case["perm"]))


@st.composite
def sort_cases(draw):
    return dict(n=draw(st.integers(0, 12)), seed=draw(st.integers(0, 2**31)), two=draw(st.booleans()), ties=draw(st.booleans()), first=draw(st.booleans()),
                cols=draw(st.lists(st.sampled_from(["chi2", "zwarn", "num", "k"]), min_size=1, max_size=3, unique=True)))


def check_sort(case, ctx):
    from astropy.table import Table
    from redrock.zfind import sort_zfit, sort_zfit_dict, sort_dict_by_cols
    g, n = world.rng(case["seed"]), case["n"]
    chi2 = g.integers(1, 4, n) * 100.0 if case["ties"] else g.uniform(0, 1e4, n)
    chi2[g.uniform(size=n) < 0.1] = 9e99
    warn = np.where(g.uniform(size=n) < 0.5, 0, 1 << g.integers(0, 12, n)) | np.where(g.uniform(size=n) < 0.2, 1 << g.integers(0, 12, n), 0)
    base = dict(chi2=chi2, zwarn=warn.astype(int), num=g.integers(0, 3, n), k=np.arange(n), coeff=g.normal(size=(n, 3)), name=np.array(["s%d" % i for i in range(n)], dtype="U4"))
    bad = (base["zwarn"] & oracle.BADFIT) != 0

    def judge(d, keys, what):
        k = np.asarray(d["k"]).reshape(-1)
        require(sorted(k.tolist()) == list(range(n)), "%s: rows %s of %d", what, k.tolist(), n)
        for c in base:
            require(np.array_equal(np.asarray(d[c]).reshape(base[c].shape), base[c][k]), "%s: column %s does not follow its row", what, c)
        x = [tuple(float(q[i]) for q in keys) for i in k]
        require(x == sorted(x), "%s: order %s", what, x)

    def columns():
        return {c: (v.reshape(n, 1).copy() if case["two"] and v.ndim == 1 else v.copy()) for c, v in base.items()}
    t = Table(base)
    sort_zfit(t)
    require(list(t.colnames) == list(base), "sort_zfit: columns %s", t.colnames)
    judge(t, (bad, base["chi2"]), "sort_zfit")
    d = columns()
    sort_zfit_dict(d)
    require(set(d) == set(base), "sort_zfit_dict: columns %s", sorted(d))
    judge(d, (bad, base["chi2"]), "sort_zfit_dict")
    d = columns()
    sort_dict_by_cols(d, tuple(case["cols"]), sort_first_column_first=case["first"])
    judge(d, [base[c] for c in (case["cols"] if case["first"] else case["cols"][::-1])], "sort_dict_by_cols by %s" % case["cols"])
    ctx.label("bad fits among good ones", bool(bad.any()) and not bad.all())
    ctx.nontrivial(n > 2 and bool(bad.any()) and not bad.all())


@st.composite
def twice_cases(draw):
    t = draw(world.template_specs(1, 3, nzmin=6, nzmax=12))
    k = draw(st.integers(0, len(t) - 1))
    again = dict(t[k], seed=draw(st.integers(0, 2**31)), nz=draw(st.sampled_from([t[k]["nz"], 9])), nbasis=draw(st.sampled_from([t[k]["nbasis"], 2])))
    return dict(t=t, again=again, at=draw(st.integers(0, len(t))), g=draw(world.target_specs(1, 2, npixmin=16, npixmax=30)), nproc=draw(st.sampled_from([1, 1, 1, 2])))


def check_twice(case, ctx):
    """A table cannot be complete where two templates have one name: both or none."""
    specs = list(case["t"])
    specs.insert(case["at"], case["again"])
    ts = [world.make_template(s) for s in specs]
    tg = [world.make_target(s, 7 + i, ts[:1]) for i, s in enumerate(case["g"])]
    try:
        scan, tab = world.run_zfind(tg, ts, mp_procs=case["nproc"])
    except (ValueError, KeyError, RuntimeError):
        ctx.label("refused")
    else:
        kept = len(scan[7])
        require(kept == len(ts), "of %d templates, two named %s, %d scans are kept; the table has %d rows", len(ts), fulltype(case["again"]["spectype"], case["again"]["subtype"]), kept, len(tab))
    ctx.nontrivial()


def warm():
    from checks.c01 import warm as w
    w()


FACETS = [Facet("merge", cases, check, quick=700, thorough=10000, shards=8, setup=warm,
                rule="2-4 templates of shared and distinct spectral types in random order x 1-3 targets x nminima 1-4; the table is "
                     "compared with the ranked merge of one-template runs; non-trivial = rows of more than one template, no ties"),
          Facet("sort", sort_cases, check_sort, quick=1600, thorough=20000, shards=8, setup=warm,
                rule="tables and dicts of 0-12 fits with any warning bits, tied and huge chi2, one or two dimensional columns: whole rows, usable fits first, by chi2; "
                     "non-trivial = bad and good fits"),
          Facet("twice", twice_cases, check_twice, quick=160, thorough=2000, shards=8, setup=warm,
                rule="1-3 templates and another one of the same type and subtype: refused, as one would replace the other; every case is non-trivial")]
