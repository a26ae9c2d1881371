"""C35: rrplot shows the fit of the chosen target and row."""
import os, sys, io, contextlib, tempfile, types
import numpy as np
from hypothesis import strategies as st
from vlib.core import Facet, require, fail
from vlib import world, oracle, boot
from vlib import desifiles as D

ASSUMPTIONS = ["figures are drawn without a display and keys pressed by events; what is judged is the data, labels and limits of the axes, not pixels",
               "the expected models are those of Target.eval_model for perfect resolution, which C25 and C29 judge"]


@st.composite
def keys(draw):
    return draw(st.lists(st.sampled_from(["right", "right", "left", "down", "down", "up", "d", "x", "zoom"]), min_size=0, max_size=7))


@st.composite
def cases(draw):
    from checks import c30
    ts = draw(world.template_specs(1, 3, nzmin=8, nzmax=14, nbmax=4))
    ncam = draw(st.sampled_from([1, 2, 3]))
    g = draw(world.target_specs(1, 4, ncam=(ncam,), npixmin=16, npixmax=30, kinds=["normal"] * 5 + ["noise", "nodata", "few"], nspecmax=draw(st.sampled_from([1, 1, 2]))))
    a = draw(c30.archs(ts)) if draw(st.integers(0, 2)) == 0 else None
    return dict(ts=ts, g=g, a=a, o=draw(c30.options(ncam)), nminima=draw(st.sampled_from([1, 2, 3])), keys=draw(keys()), drop=draw(st.lists(st.integers(0, 3), max_size=2)),
                perm=draw(st.permutations(list(range(len(g))))), file=draw(st.booleans()), truth=draw(st.sampled_from(["none", "none", "all", "part"])))


def judge(case, ctx, fig, T, zscan, zfit, templates, A, it, iz, truth):
    """The figure against row iz of target it."""
    import matplotlib
    require(len(fig.axes) == 2, "%d panels", len(fig.axes))
    ax1, ax2 = fig.axes
    tg = T[it]
    rows = zfit[np.asarray(zfit["targetid"]) == tg.id]
    row = rows[np.asarray(rows["znum"]) == iz][0]
    what = "target %d row %d" % (tg.id, iz)
    # ---- scan
    curves = {}
    for ft, s in zscan[tg.id].items():
        curves[ft] = (np.asarray(s["redshifts"]), np.asarray(s["zchi2"]), np.asarray(s["zchi2"]) + np.asarray(s["penalty"]))
    drawn = set()
    vert = []
    points = None
    for l in ax1.get_lines():
        x, y = np.asarray(l.get_xdata(), float), np.asarray(l.get_ydata(), float)
        mark = l.get_marker() not in (None, "None", "")
        if len(x) == 2 and x[0] == x[1] and not mark:
            vert.append(x[0])
            continue
        if len(x) == 2 and y[0] == y[1] and not mark and list(x) == [0, 1]:
            require(y[0] == row["chi2"], "%s: chi2 %r is marked, it is %r", what, y[0], row["chi2"])
            continue
        hit = [(ft, k) for ft, c in curves.items() for k in (1, 2) if np.array_equal(c[0], x) and np.array_equal(c[k], y)]
        if hit and not mark:
            drawn |= set(hit)
        elif len(x) == len(rows) and mark:
            require(np.array_equal(x, rows["z"]) and np.array_equal(y, rows["chi2"]), "%s: fits marked at %s %s", what, x, y)
            points = True
        else:
            fail("%s: the scan panel has a curve %s %s that is not a scan of the target", what, x, y)
    require(points, "%s: the fits are not marked", what)
    require(row["z"] in vert, "%s: lines at %s, not at the redshift %r", what, vert, row["z"])
    zt = [] if truth is None else list(truth["ztrue"][truth["targetid"] == tg.id])
    require(sorted(vert) == sorted([row["z"]] + zt), "%s: lines at redshifts %s, expected %s", what, vert, [row["z"]] + zt)
    for ft in curves:
        require((ft, 2) in drawn or np.array_equal(curves[ft][1], curves[ft][2]) and (ft, 1) in drawn, "%s: the scan of %s is not drawn", what, ft)
        ctx.label("scan drawn")
        ctx.label("scan of a subtype", ":::" in ft)
    t = ax1.get_title()
    require(str(tg.id) in t and "%.3f" % row["z"] in t and row["spectype"] in t, "%s: title %r", what, t)
    labels = {x.get_text(): x.get_position() for x in ax1.texts}
    for r in rows:
        require(str(r["znum"]) in labels and labels[str(r["znum"])] == (r["z"], r["chi2"]), "%s: fit %d is labelled at %s", what, r["znum"], labels)
    # ---- spectrum
    d = {k.upper(): row[k] for k in ("spectype", "subtype", "coeff", "z", "fitmethod")}
    if row["fitmethod"] == "ARCH":
        leg = np.asarray(row["legcoeff"], float) if "legcoeff" in row.colnames else np.zeros(1)
        d["LEGCOEFF"] = leg
        for k in ("SPECTYPE", "SUBTYPE"):
            d[k] = str(d[k])
    m = world.bare(tg).eval_model(d, templates, A)       # before the resolution, which may differ between the exposures of a camera
    lines = [(np.asarray(l.get_xdata(), float), np.asarray(l.get_ydata(), float)) for l in ax2.get_lines()]
    lines = [(x, y) for x, y in lines if not (list(x) == [0, 1] and list(y) == [0, 0])]
    require(len(lines) == 3 * len(tg.spectra), "%s: %d curves for %d spectra", what, len(lines), len(tg.spectra))
    for s in tg.spectra:
        bad = s.ivar == 0
        full = s.R.dot(m[s.wavehash])
        data, model = np.where(bad, np.nan, s.flux), np.where(bad, np.nan, full)
        mine = [y for x, y in lines if np.array_equal(x, s.wave)]
        scale = np.nanmax(np.abs(np.concatenate([m[s.wavehash], [1e-30]])))
        require(any(np.array_equal(y, data, equal_nan=True) for y in mine), "%s: the flux is not drawn", what)
        require(any(np.allclose(y, model, rtol=1e-6, atol=1e-6 * scale, equal_nan=True) for y in mine),
                "%s (%s %s, z=%r): no curve is the model %s; there are %s", what, row["spectype"], row["fitmethod"], row["z"], model[~bad][:4], [y[~bad][:4].tolist() for y in mine])
        require(any(np.allclose(s.R.dot(np.nan_to_num(y)), full, rtol=1e-6, atol=1e-6 * scale) for y in mine), "%s: the model before the resolution is not drawn", what)
    lo, hi = ax2.get_ylim()
    require(np.isfinite(lo) and np.isfinite(hi) and hi > lo, "%s: limits %r %r", what, lo, hi)
    texts = [x.get_text() for x in ax2.texts]
    ft = row["spectype"] + (":::" + row["subtype"] if row["subtype"] else "")
    require(any(ft in x and "%.3f" % row["z"] in x and str(iz) in x for x in texts), "%s: labels %s do not name %s", what, texts, ft)
    from redrock.zwarning import ZWarningMask as Z
    names = sorted(n for n, b in Z.flags() if row["zwarn"] & b)
    require(any(sorted(x.split("\n")) == names for x in texts) if names else "ZWARN=0" in texts, "%s: warnings %s are labelled %s", what, names, texts)
    ctx.label("archetype", row["fitmethod"] == "ARCH")
    ctx.label("warnings", bool(names))
    ctx.label("masked", any(np.any(s.ivar == 0) for s in tg.spectra))


def press(fig, key):
    from matplotlib.backend_bases import KeyEvent
    fig.canvas.callbacks.process("key_press_event", KeyEvent("key_press_event", fig.canvas, key))


def walk(case, ctx, fig, T, zscan, zfit, templates, A, truth):
    it = iz = 0
    judge(case, ctx, fig, T, zscan, zfit, templates, A, it, iz, truth)
    for k in case["keys"]:
        n = int(np.sum(np.asarray(zfit["targetid"]) == T[it].id))
        if k == "zoom":
            for ax in fig.axes:
                x, y = ax.get_xlim(), ax.get_ylim()
                ax.set_xlim(x[0] + 0.1 * (x[1] - x[0]), x[1]), ax.set_ylim(y[0], y[1] - 0.2 * (y[1] - y[0]))
            continue
        lim = [ax.get_xlim() + ax.get_ylim() for ax in fig.axes]
        press(fig, k)
        if k in ("left", "right"):
            iz = (iz + (1 if k == "right" else -1)) % n
        elif k == "down" and it < len(T) - 1:
            it, iz = it + 1, 0
        elif k == "up" and it > 0:
            it, iz = it - 1, 0
        if k in ("left", "right", "d", "x"):
            require(np.allclose(lim, [ax.get_xlim() + ax.get_ylim() for ax in fig.axes], rtol=1e-9), "key %s changes the zoom", k)
        judge(case, ctx, fig, T, zscan, zfit, templates, A, it, iz, truth)
    ctx.label("other target", it > 0)
    ctx.label("other row", iz > 0)
    return it, iz


def quiet(fn):
    import warnings
    with contextlib.redirect_stdout(io.StringIO()), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return fn()


def check(case, ctx):
    import matplotlib.pyplot as plt
    from redrock.plotspec import PlotSpec
    from redrock.archetypes import All_archetypes
    from redrock.results import write_zscan, read_zscan
    from checks import c30
    tmp = tempfile.mkdtemp(prefix="c35-")
    plt.close("all")
    A = c30.load(case["a"], tmp) if case["a"] else None
    ts = [world.make_template(s) for s in case["ts"]]
    ids = [world.BIG + i for i in range(len(case["g"]))]
    T = [world.make_target(s, i, ts) for s, i in zip(case["g"], ids)]
    kw = dict(nminima=case["nminima"])
    if A:
        kw.update(c30.kwargs(case["o"], case["g"][0]["ncam"]), archetypes=A)
    zscan, zfit = world.run_zfind(T, ts, **kw)
    if case["file"]:
        p = os.path.join(tmp, "details.h5")
        write_zscan(p, zscan, zfit)
        zscan, zfit = read_zscan(p)
    T = [T[i] for i in case["perm"]]
    # targets without results are not shown
    drop = {ids[k % len(ids)] for k in case["drop"]}
    if len(drop) == len(ids):
        drop = set()
    zfit = zfit[~np.isin(zfit["targetid"], list(drop))]
    shown = [t for t in T if t.id not in drop]
    truth = None
    if case["truth"] != "none":
        tid = np.array([t.id for t in shown][:1 if case["truth"] == "part" else None])
        tid = np.concatenate([tid, [3, 9999]])[np.argsort(np.sin(tid.sum() + np.arange(len(tid) + 2)))]      # others too, in any order
        truth = dict(targetid=tid, ztrue=np.linspace(0.11, 0.77, len(tid)))
    templates = {t.full_type: t for t in ts}
    arch = types.SimpleNamespace(archetypes=A) if A else False
    if A:
        arch = quiet(lambda: All_archetypes(archetypes_dir=tmp))
    try:
        P = quiet(lambda: PlotSpec(T, templates, zscan, zfit, truth=truth, archetypes=arch))
        quiet(lambda: walk(case, ctx, plt.gcf(), shown, zscan, zfit, {(t.template_type, t.sub_type): t for t in ts}, A, truth))
        del P
    finally:
        plt.close("all")
    ctx.nontrivial(len(shown) > 1 or case["nminima"] > 1)


# ---------------------------------------------------------------- the program
@st.composite
def run_cases(draw):
    from checks import c24, c30
    case = draw(c24.cases(plain=True))
    case.update(draw(c30.run_cases()) if draw(st.integers(0, 2)) == 0 else dict(a=None))
    case.update(ids=None, first=None, n=None, keys=draw(keys()), pick=draw(st.sampled_from([None, None, 1, 2])))
    return case


def check_run(case, ctx):
    import matplotlib.pyplot as plt
    from redrock.external.desi import rrdesi, DistTargetsDESI
    from redrock.templates import Template
    from redrock.results import read_zscan
    from checks import c24, c30
    tmp = tempfile.mkdtemp(prefix="c35-")
    tdir, adir = os.path.join(tmp, "templates"), os.path.join(tmp, "arch")
    os.mkdir(tdir), os.mkdir(adir)
    tpaths, targ = c24.template_files(dict(case, tform="dir"), tdir)
    ts = [Template(p) for p in tpaths]
    inp = []
    for k, s in enumerate(case["files"]):
        inp.append(os.path.join(tmp, "in%d.fits" % k))
        D.write(inp[-1], s, ts)
    want, per = D.select(case["files"], None, None, None)
    if not want:
        return
    A = c30.load(case["a"], adir) if case["a"] else None
    det = os.path.join(tmp, "d.h5")
    more = ["--allspec"] * case["allspec"]
    rrdesi(["-i"] + inp + ["-d", det, "--mp", "1", "--nminima", "2", "-t", tdir] + (["--archetypes", adir] if A else []) + more)
    zscan, zfit = read_zscan(det)
    ids = want[:case["pick"]]
    path = os.path.join(boot.REPO, "bin", "rrplot")
    argv = ["rrplot", "--specfile"] + inp + ["--rrfile", det, "-t", tdir] + (["--archetypes", adir, "--use-archetype"] if A else []) + more
    if case["pick"]:
        argv += ["--targetids", ",".join(str(i) for i in ids)]
    plt.close("all")
    old = sys.argv
    sys.argv = argv
    env = dict(__name__="__main__", __file__=path)
    try:
        quiet(lambda: exec(compile(open(path).read(), path, "exec"), env))
        # in whichever order the reader has them
        shown = DistTargetsDESI(inp, coadd=not case["allspec"], targetids=ids if case["pick"] else None)._my_data
        require(sorted(int(t.id) for t in shown) == sorted(ids), "targets %s", [t.id for t in shown])
        quiet(lambda: walk(case, ctx, plt.gcf(), shown, zscan, zfit, {(t.template_type, t.sub_type): t for t in ts}, A, None))
    finally:
        sys.argv = old
        plt.close("all")
    ctx.label("several files", len(inp) > 1)
    ctx.nontrivial(len(ids) > 1)


def warm():
    import redrock.external.desi, redrock.plotspec  # noqa
    import matplotlib
    matplotlib.use("Agg")
    import matplotlib.pyplot as plt
    plt.figure().canvas.draw()
    plt.close("all")
    from checks.c01 import warm as w
    w()


FACETS = [Facet("panels", cases, check, quick=200, thorough=4000, shards=8, setup=warm,
                rule="1-4 targets x 1-3 templates x with and without archetypes x results from memory or a details file x targets without results x keys pressed; scans, marks, flux, models, labels, "
                     "warnings and limits of the figure after every key; non-trivial = several targets or rows"),
          Facet("program", run_cases, check_run, quick=50, thorough=1000, shards=8, setup=warm,
                rule="rrplot on the files and details of rrdesi runs, with options; the same; non-trivial = several targets")]
