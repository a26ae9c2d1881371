"""C27: template files, template sets, and the templates recorded in an output header."""
import os, tempfile, pathlib
import numpy as np
from hypothesis import strategies as st
from vlib.core import Facet, require, fail

ASSUMPTIONS = ["template files are synthetic (as the redrock-templates repository is not here), written in every numeric type FITS images have for this"]
DEFAULTS = dict(GALAXY=(-0.005, 1.7, 3e-4), QSO=(0.05, 6.0, 5e-4), STAR=(-0.002, 0.00201, 4e-5))
NO = "no such keyword"


@st.composite
def tfile(draw, spectype=None, subtype=None, valid=False, small=False):
    ty = spectype or draw(st.sampled_from(["GALAXY", "QSO", "STAR"] + ([] if valid else ["AGN"])))
    case = draw(st.sampled_from(["up", "low", "pad"]))
    hasz = draw(st.booleans()) or (small and True)
    d = dict(ty=ty, case=case, sub=subtype if subtype is not None else draw(st.sampled_from([NO, "", "HIZ", "loz", " A "])),
             nb=draw(st.integers(1, 4)), nw=draw(st.integers(4, 40)), loglam=draw(st.sampled_from([NO, 0, 1, False, True])),
             w0=draw(st.sampled_from([500.0, 1200.0, 3700.0])), dtype=draw(st.sampled_from(["f8", "f4", "i4", "i2"])),
             method=draw(st.sampled_from([NO, "PCA", "NMF", "pca", "nmf"] + ([] if valid else ["SVD", ""]))),
             igm=draw(st.sampled_from(([NO] if not valid else []) + ["None", "Inoue14", "Calura12", "Kamble20"])),
             ver=draw(st.sampled_from([NO, "0.1", "1.0", "1.1", "2.6", "3.0"])) if not valid else draw(st.sampled_from(["0.1", "2.6", "3.0"])),
             z=draw(st.lists(st.floats(-0.0078125, 6, width=16), min_size=1, max_size=9, unique=True).map(sorted)) if hasz else None,
             zt=draw(st.sampled_from(["f8", "f4"])), seed=draw(st.integers(0, 2**31)))
    return d


def contents(d):
    g = np.random.default_rng(d["seed"])
    flux = g.normal(size=(d["nb"], d["nw"])) * 100
    flux = flux.astype(d["dtype"])
    if d["loglam"] not in (NO, 0, False):
        c1, cd = np.log10(d["w0"]), 0.0137
        wave = 10**(c1 + cd * np.arange(d["nw"]))
    else:
        c1, cd = d["w0"], 17.3
        wave = c1 + cd * np.arange(d["nw"])
    return flux, wave, c1, cd


def write(d, path):
    from astropy.io import fits
    flux, wave, c1, cd = contents(d)
    h = fits.Header()
    h["CRVAL1"], h["CDELT1"] = c1, cd
    if d["loglam"] != NO:
        h["LOGLAM"] = d["loglam"]
    h["RRTYPE"] = dict(up=d["ty"], low=d["ty"].lower(), pad=" " + d["ty"] + " ")[d["case"]]
    for key, k in (("RRSUBTYP", "sub"), ("RRMETHOD", "method"), ("RRIGM", "igm"), ("VERSION", "ver")):
        if d[k] != NO:
            h[key] = d[k]
    hl = [fits.PrimaryHDU(), fits.ImageHDU(flux, header=h, name="BASIS_VECTORS")]
    if d["z"] is not None:
        hl.append(fits.ImageHDU(np.array(d["z"], d["zt"]), name="REDSHIFTS"))
        if d["seed"] % 2:
            hl[1:] = hl[:0:-1]
    fits.HDUList(hl).writeto(path, overwrite=True)


def igm_of(d):
    if d["igm"] != NO:
        return d["igm"]
    ver = d["ver"]
    if d["ty"] == "STAR":
        return "None"
    if d["ty"] == "GALAXY" and ver == "2.6":
        return "Calura12"
    if d["ty"] == "QSO" and ver in ("0.1", "1.0"):
        return "Calura12"
    if d["ty"] == "QSO" and ver == "1.1":
        return "Kamble20"
    return None


def grid_ok(z, ty, rng):
    lo, hi, dz = rng
    z = np.asarray(z)
    f = (lambda x: x) if ty == "STAR" else (lambda x: np.log10(1 + x))
    g = f(z)
    require(len(z) > 0 and abs(g[0] - f(lo)) < 1e-12, "redshifts start at %r instead of %r", z[:1], lo)
    require(np.allclose(np.diff(g), dz, rtol=1e-6, atol=0), "redshift spacing of %s is not %g", ty, dz)
    require(f(hi) - dz * (1 + 1e-6) <= g[-1] <= f(hi) + dz * 1e-6, "last redshift %r for a range up to %r", z[-1], hi)


def same_template(t, d, zs, what):
    flux, wave, c1, cd = contents(d)
    require(t.flux.dtype == np.float64 and t.flux.dtype.isnative and t.flux.shape == flux.shape and np.array_equal(t.flux, flux.astype("f8")),
            "%s: basis vectors differ from the file", what)
    require(t.wave.shape == wave.shape and np.allclose(t.wave, wave, rtol=1e-12, atol=0), "%s: wavelengths %r, file has %r", what, t.wave[:3], wave[:3])
    require((t.nbasis, t.nwave) == (d["nb"], d["nw"]), "%s: nbasis, nwave %r", what, (t.nbasis, t.nwave))
    require(t.minwave == t.wave[0] and t.maxwave == t.wave[-1], "%s: wavelength limits", what)
    sub = "" if d["sub"] == NO else d["sub"].strip().upper()
    require((t.template_type, t.sub_type) == (d["ty"], sub), "%s: type %r", what, (t.template_type, t.sub_type))
    require(t.full_type == (d["ty"] + ":::" + sub if sub else d["ty"]), "%s: full type %r", what, t.full_type)
    meth = "PCA" if d["method"] == NO else d["method"].upper()
    require(t.method == meth and t.solve_matrices_algorithm == meth, "%s: method %r instead of %r", what, t.method, meth)
    require(t.igm_model == igm_of(d), "%s: IGM model %r instead of %r", what, t.igm_model, igm_of(d))
    require(t.version == ("unknown" if d["ver"] == NO else d["ver"]), "%s: version %r", what, t.version)
    if d["z"] is not None:
        require(np.asarray(t.redshifts).dtype.isnative and np.array_equal(np.asarray(t.redshifts), np.array(d["z"], d["zt"])), "%s: redshifts %r", what, t.redshifts)
    else:
        grid_ok(t.redshifts, d["ty"], zs.get(d["ty"]) or DEFAULTS[d["ty"]])


def fstr(r):
    return "%r,%r,%r" % tuple(r)


ranges = st.fixed_dictionaries(dict(GALAXY=st.sampled_from([None, (-0.005, 1.0, 0.01), (0.2, 0.5, 0.003), (0.0, 0.1, 0.2)]),
                                    QSO=st.sampled_from([None, (0.05, 3.0, 0.02), (2.0, 5.0, 0.001), (1.0, 1.2, 5.0)]),
                                    STAR=st.sampled_from([None, (-0.001, 0.001, 1e-4), (-0.004, 0.0, 1e-3), (0.0, 1e-3, 1.0)])))


@st.composite
def cases(draw):
    return dict(t=draw(tfile()), zs=draw(ranges), rel=draw(st.sampled_from(["abs", "env", "cwd", "missing"])))


def check(case, ctx):
    from redrock.templates import Template
    tmp = tempfile.mkdtemp(prefix="c27-")
    d, zs = case["t"], case["zs"]
    os.mkdir(os.path.join(tmp, "a"))
    path = os.path.join(tmp, "a", "rrtemplate-x.fits")
    write(d, path)
    kw = {"zscan_" + k.lower(): fstr(v) for k, v in zs.items() if v}
    name = dict(abs=path, env="rrtemplate-x.fits", cwd=os.path.relpath(path), missing="rrtemplate-y.fits")[case["rel"]]
    valid = (d["method"] == NO or d["method"].upper() in ("PCA", "NMF")) and igm_of(d) is not None and (d["z"] is not None or d["ty"] != "AGN")
    old = os.environ.get("RR_TEMPLATE_DIR")
    os.environ["RR_TEMPLATE_DIR"] = os.path.join(tmp, "a")
    try:
        if case["rel"] == "missing":
            try:
                Template(name, **kw)
            except (IOError, ValueError):
                ctx.label("missing")
                return
            fail("Template of a file that does not exist")
        if not valid:
            try:
                t = Template(name, **kw)
            except ValueError:
                ctx.label("refused")
                ctx.nontrivial()
                return
            fail("template file without a usable type, method or IGM model is accepted: %s %s %s", t, d["igm"], d["ver"])
        t = Template(name, **kw)
    finally:
        if old is None:
            del os.environ["RR_TEMPLATE_DIR"]
        else:
            os.environ["RR_TEMPLATE_DIR"] = old
    require(os.path.basename(str(t.filename)) == "rrtemplate-x.fits", "filename %r", t.filename)
    same_template(t, d, zs, "template")
    ctx.label("grid" if d["z"] is None else "file")
    ctx.nontrivial()


# ---------------------------------------------------------------- sets of templates
TYPES = [("GALAXY", ""), ("GALAXY", "B"), ("QSO", "HIZ"), ("QSO", "LOZ"), ("STAR", "F"), ("STAR", "G"), ("STAR", "K"), ("STAR", "M"), ("STAR", "WD"),
         ("STAR", "CV"), ("QSO", ""), ("STAR", "A"), ("STAR", "B")]


@st.composite
def set_cases(draw):
    many = draw(st.integers(0, 3)) == 0
    ty = draw(st.lists(st.sampled_from(TYPES), min_size=11 if many else 1, max_size=13 if many else 7, unique=True))
    ts = [draw(tfile(a, b, valid=True, small=True)) for a, b in ty]
    n = len(ts)
    return dict(ts=ts, form=draw(st.sampled_from(["dir", "dirtxt", "dirtxt", "txt", "txt", "list", "tuple", "array", "single", "env", "header", "header", "oldheader", "oldheader",
                                                  "nodir", "notxt", "badext", "missingline"])),
                aspath=draw(st.integers(0, 3)) == 0, names=draw(st.permutations(list(range(n)))),
                order=draw(st.permutations(list(range(n))) if many else st.lists(st.integers(0, n - 1), min_size=1, max_size=n, unique=True)),
                lines=draw(st.lists(st.sampled_from(["rel", "rel", "abs", "sub", "trail", "lead"]), min_size=n, max_size=n)),
                noise=draw(st.lists(st.sampled_from(["# c", "", "  # rrtemplate-00.fits", "\t", "x"]), min_size=n + 1, max_size=n + 1)),
                slash=draw(st.booleans()), asdict=draw(st.booleans()), zs=draw(ranges), envset=draw(st.booleans()))


def check_set(case, ctx):
    from redrock import templates as T
    from redrock.external.desi import _get_header
    from astropy.io import fits
    tmp = tempfile.mkdtemp(prefix="c27-")
    tdir = os.path.join(tmp, "tmpl")
    os.makedirs(os.path.join(tdir, "sub"))
    ts, form = case["ts"], case["form"]
    if form in ("header", "oldheader"):
        def name(k):
            d = ts[k]
            return "rrtemplate-%s-%s-v%s.fits" % (d["ty"], d["sub"].strip().upper() or None, d["ver"])
    else:
        def name(k):
            return "rrtemplate-%02d.fits" % case["names"][k]
    paths = []
    for k, d in enumerate(ts):
        sub = form in ("dirtxt", "txt") and case["lines"][k] == "sub"
        paths.append(os.path.join(tdir, "sub" if sub else "", name(k)))
        write(d, paths[-1])
    with open(os.path.join(tdir, "rrtemplate-notes.txt"), "w") as f:
        f.write("not a template")
    order = case["order"]
    asdict = case["asdict"]
    kw = {"zscan_" + k.lower(): fstr(v) for k, v in case["zs"].items() if v}
    env = os.environ.get("RR_TEMPLATE_DIR")
    other = os.path.join(tmp, "other")
    os.mkdir(other)
    refuse = form in ("nodir", "notxt", "badext", "missingline")
    hdr = None
    if form in ("dirtxt", "txt", "missingline"):
        tf = os.path.join(tdir if form != "txt" else tdir, "templates-default.txt" if form != "txt" else "some.txt")
        with open(tf, "w") as f:
            for i, k in enumerate(order):
                if case["noise"][i] != "x":
                    f.write(case["noise"][i] + "\n")
                p, ln = paths[k], case["lines"][k]
                f.write(dict(abs=p, rel=os.path.relpath(p, tdir), sub=os.path.relpath(p, tdir), trail=os.path.relpath(p, tdir) + "   # best one",
                             lead="   " + os.path.relpath(p, tdir))[ln])
                f.write("\n" if i < len(order) - 1 or case["slash"] else "")
            if form == "missingline":
                f.write("\nrrtemplate-none.fits\n")
        arg = tf if form == "txt" else tdir
        want = order
    elif form in ("list", "tuple", "array"):
        arg = [paths[k] for k in order]
        arg = arg if form == "list" else tuple(arg) if form == "tuple" else np.array(arg)
        want = order
    elif form == "single":
        arg, want = paths[order[0]], order[:1]
    elif form in ("dir", "env", "nodir"):
        arg = tdir if form != "nodir" else os.path.join(tmp, "none")
        want = sorted(range(len(ts)), key=lambda k: name(k))
    elif form == "notxt":
        arg = os.path.join(tmp, "none.txt")
    elif form == "badext":
        arg = os.path.join(tmp, "x.dat")
        open(arg, "w").close()
    if case["slash"] and form in ("dir", "dirtxt"):
        arg = arg + "/"
    if form not in ("header", "oldheader") and case["aspath"]:
        arg = [pathlib.Path(p) for p in arg] if form in ("list", "tuple", "array") else pathlib.Path(arg)
        if form in ("list", "tuple", "array"):
            arg = [str(p) for p in arg]
    os.environ["RR_TEMPLATE_DIR"] = tdir if (form == "env" or (form in ("header", "oldheader") and case["envset"])) else other
    if form == "env":
        arg = None
    try:
        if refuse:
            for fn in (lambda: T.find_templates(arg), lambda: T.load_templates(arg)):
                try:
                    r = fn()
                except (ValueError, OSError):
                    continue
                fail("%s: unusable template path gives %r", form, r)
            ctx.label(form)
            return
        if form in ("header", "oldheader"):
            want = order
            loaded = [T.Template(paths[k]) for k in order]
            h = _get_header(dict(enumerate(loaded)) if case["asdict"] else loaded)
            p = os.path.join(tmp, "h.fits")
            fits.PrimaryHDU(header=h).writeto(p)
            h = fits.getheader(p)
            for i, k in enumerate(order):
                require(h["TEMNAM%02d" % i] == loaded[i].full_type and h["TEMVER%02d" % i] == loaded[i].version and h["TEMFIL%02d" % i] == name(k), "header of template %d", i)
            if form == "oldheader":
                for i in range(len(order)):
                    del h["TEMFIL%02d" % i]
                    if ts[order[i]]["ty"] == "STAR" and ts[order[i]]["ver"] == "0.1" and case["slash"]:
                        h["TEMVER%02d" % i] = "unknown"
            got = T.load_templates_from_header(h, template_dir=None if case["envset"] else tdir, asdict=asdict)
        else:
            files = T.find_templates(arg)
            require([os.path.realpath(f) for f in files] == [os.path.realpath(paths[k]) for k in want], "%s: find_templates gives %r", form, list(files))
            got = T.load_templates(arg, asdict=asdict, **kw)
        if asdict:
            require(isinstance(got, dict), "no dict")
            for key, t in got.items():
                require(key == (t.template_type, t.sub_type), "key %r of %s", key, t)
            got = list(got.values())
        require(isinstance(got, list) and len(got) == len(want), "%d templates for %d files", len(got), len(want))
        for t, k in zip(got, want):
            same_template(t, ts[k], case["zs"] if form not in ("header", "oldheader") else {}, "template %d" % k)
    finally:
        if env is None:
            del os.environ["RR_TEMPLATE_DIR"]
        else:
            os.environ["RR_TEMPLATE_DIR"] = env
    ctx.label(form)
    ctx.label("more than ten", len(want) > 10)
    ctx.nontrivial(len(want) > 1)


FACETS = [Facet("file", cases, check, quick=900, thorough=20000, shards=4,
                rule="one template file: types, cases, methods, IGM rules, versions, log/linear grids, number types, redshift tables or ranges, relative "
                     "to the template directory; non-trivial = always"),
          Facet("set", set_cases, check_set, quick=480, thorough=8000, shards=6,
                rule="1-13 files given as directory, directory with list, list file, list, single file, environment, output header (new and old "
                     "keywords), or unusable paths; non-trivial = several templates")]
