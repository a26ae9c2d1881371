"""C36: the programs that convert and install templates."""
import os, sys, io, tempfile, contextlib, subprocess, shutil, types
import numpy as np
from hypothesis import strategies as st
from vlib.core import Facet, require, fail
from vlib import boot, world

ASSUMPTIONS = ["rrgaltemplate, rrstartemplate and rrstarwdtemplate need desisim and its basis templates, which are not here: not covered",
               "rrqsotemplate runs with an empty module instead of empca, of which it uses nothing",
               "template repositories are local git repositories"]


def program(name, argv, cwd):
    """A program of bin/ in this process; its exit code and what it printed."""
    path = os.path.join(boot.REPO, "bin", name)
    with open(path) as f:
        code = compile(f.read(), path, "exec")
    old, oargv, ocwd = sys.modules.get("empca"), sys.argv, os.getcwd()
    sys.modules["empca"] = types.ModuleType("empca")
    sys.modules["empca"].empca = None
    env = dict(os.environ)
    text = io.StringIO()
    sys.argv = [path] + argv
    os.chdir(cwd)
    try:
        with contextlib.redirect_stdout(text), contextlib.redirect_stderr(text):
            exec(code, dict(__name__="__main__", __file__=path))
        rc = 0
    except SystemExit as e:
        rc = e.code if isinstance(e.code, int) else int(e.code is not None)
    finally:
        os.chdir(ocwd)
        sys.argv = oargv
        os.environ.clear()
        os.environ.update(env)
        if old is None:
            sys.modules.pop("empca", None)
        else:
            sys.modules["empca"] = old
    return rc, text.getvalue()


NAMES = ["O", "OB", "B6", "A0p", "F5", "G0", "K5/7", "M0V", "sd-O", "Carbon WD", "CarbonWD2", "L5.5", "WD", "A0 (11111)", "A0 (22222)", "F2 III (7)", "G2/3 V (123)", "CV", "T2", "M8", "m8b"]


@st.composite
def cases(draw):
    ty = draw(st.sampled_from(["STAR", "STAR", "GALAXY", "QSO"]))
    names = draw(st.lists(st.sampled_from(NAMES), min_size=1, max_size=14, unique=True)) if ty == "STAR" and draw(st.integers(0, 4)) else None
    return dict(ty=ty, spell=draw(st.sampled_from(["{}", "{} ", " {}"])), lower=draw(st.booleans()), names=names, nb=draw(st.integers(1, 12)),
                nw=draw(st.integers(5, 60)), c0=draw(st.sampled_from([2.6, 3.0, 3.5, 3.2621])), c1=draw(st.sampled_from([1e-4, 1e-3, 0.00971])), dtype=draw(st.sampled_from(["f4", "f8"])),
                bad=draw(st.sampled_from([None] * 9 + ["OBJECT", "COEFF0"])), old=draw(st.booleans()), rel=draw(st.booleans()), gz=draw(st.integers(0, 4)) == 0, ext=draw(st.integers(0, 3)) == 0,
                ver=draw(st.sampled_from(["0.1", "1.0", "1.1"])), program=draw(st.sampled_from(["convert", "convert", "qso"])), seed=draw(st.integers(0, 2**31)))


def source(case, path):
    from astropy.io import fits
    g = np.random.default_rng(case["seed"])
    n = len(case["names"]) if case["names"] else case["nb"]
    flux = g.normal(size=(n, case["nw"])).astype(case["dtype"])
    h = fits.Header()
    ob = case["spell"].format(case["ty"].lower() if case["lower"] else case["ty"])
    for k, v in (("OBJECT", ob), ("COEFF0", case["c0"]), ("COEFF1", case["c1"])):
        if k != case["bad"]:
            h[k] = v
    for k, s in enumerate(case["names"] or []):
        h["NAME%d" % k] = s
    hl = [fits.PrimaryHDU(flux, header=h)] + [fits.ImageHDU(np.zeros((2, 3)), name="MORE")] * case["ext"]
    fits.HDUList(hl).writeto(path)
    return flux


def version(case):
    return "2.6" if case["ty"] == "GALAXY" else case["ver"]


def key(s):
    return "".join(c for c in s.upper() if c.isalnum())


def same_template(t, case, flux, subtype):
    wave = 10**(case["c0"] + case["c1"] * np.arange(case["nw"]))
    require(t.template_type == case["ty"], "type %s of the template, the source has %s", t.template_type, case["ty"])
    # (names lose some characters on the way into a subtype)
    require(key(t.sub_type) == key(subtype), "subtype %r of the template, the source has %r", t.sub_type, subtype)
    require(t.version == version(case), "version %r of the template, not %r", t.version, version(case))
    require(t.wave.shape == wave.shape and np.allclose(t.wave, wave, rtol=1e-12, atol=0), "wavelengths %s... of the template, %s... of the source", t.wave[:3], wave[:3])
    require(t.flux.shape == flux.shape and np.array_equal(t.flux, flux.astype("f8")), "spectra of the template (%s) are not those of the source (%s)", t.flux.shape, flux.shape)
    z = t.redshifts
    lo, hi = dict(STAR=(-0.002, 0.002), GALAXY=(-0.005, 1.7), QSO=(0.05, 6.0))[case["ty"]]
    require(abs(z[0] - lo) < 1e-6 and abs(hi - z[-1]) < 0.01, "redshifts %g..%g", z[0], z[-1])


def check(case, ctx):
    from redrock.templates import load_templates_from_header, load_templates, Template  # noqa
    from redrock.templates import find_templates
    tmp = tempfile.mkdtemp(prefix="c36-")
    src = os.path.join(tmp, "spEigen file-%s.fits" % case["ty"] + ".gz" * case["gz"])
    out = os.path.join(tmp, "converted templates")
    os.mkdir(out)
    if case["program"] == "qso":
        case = dict(case, ty="QSO", names=None, bad=None)
        target = os.path.join(out, "rrtemplate-qso.fits")
        if case["old"]:
            open(target, "w").write("old")
        flux = source(case, src)
        a = ["-i", src, "-o", target]
        if case["rel"]:
            a = ["-i", os.path.relpath(src, tmp), "-o", os.path.relpath(target, tmp)]
        rc, text = program("rrqsotemplate", a + ["--version", version(case)], tmp)
        require(rc == 0, "rrqsotemplate ended with %s: %s", rc, text[-300:])
        require(os.listdir(out) == [os.path.basename(target)], "files %s", os.listdir(out))
        same_template(Template(target), case, flux, "")
        ctx.label("rrqsotemplate")
        ctx.nontrivial()
        return
    if case["names"]:
        keep = {}
        for s in case["names"]:
            keep.setdefault(key(s), s)
        case = dict(case, names=sorted(keep.values(), key=case["names"].index))
    flux = source(case, src)
    r = (lambda p: os.path.relpath(p, tmp)) if case["rel"] else (lambda p: p)
    args = ["-i", r(src), "-o", r(out), "--version", version(case)]
    if case["old"]:
        program("rrconvertSDSStemplates", args, tmp)
    rc, text = program("rrconvertSDSStemplates", args, tmp)
    if case["bad"]:
        require(rc != 0 and not os.listdir(out), "no %s in the source: exit code %s, files %s", case["bad"], rc, os.listdir(out))
        ctx.label("refused")
        return
    require(rc == 0, "ended with %s: %s", rc, text[-300:])
    files = find_templates(out)
    n = len(case["names"] or [1])
    require(len(files) == n == len(os.listdir(out)), "%d files %s for %d templates", len(files), [os.path.basename(f) for f in files], n)
    ts = load_templates(out)
    require(len(ts) == n, "%d templates load of %d", len(ts), n)
    if case["names"]:
        ts = {key(t.sub_type): t for t in ts}
        require(len(ts) == n, "subtypes %s for the names %s", sorted(ts), case["names"])
        for k, s in enumerate(case["names"]):
            require(key(s) in ts, "no template of subtype %r: %s", s, sorted(ts))
            same_template(ts[key(s)], case, flux[k:k + 1], s)
        ctx.label("stars with names")
        ctx.label("more than ten", n > 10)
    else:
        same_template(ts[0], case, flux, "")
        ctx.label("one template")
    ctx.nontrivial(n > 1 or case["nb"] > 1)


# ---------------------------------------------------------------- installation
@st.composite
def installs(draw):
    return dict(sets=[draw(world.template_specs(1, 3, nzmin=2, nzmax=4, nbmax=2)) for _ in range(draw(st.integers(1, 3)))], branch=draw(st.booleans()),
                want=draw(st.sampled_from(["default", "main", 0, 1, 2, 0, 1, 2, "none such"])), out=draw(st.sampled_from(["t", "my templates/v1", "a/b/c", "rel"])),
                old=draw(st.sampled_from([None] * 5 + ["dir", "full", "file"])), url=draw(st.sampled_from(["repo.git", "repo", "some where/repo", "none"] + ["repo"] * 3)),
                envdir=draw(st.sampled_from([None, "other", "missing"])), broken=draw(st.sampled_from([None] * 6 + ["listed", "empty", "junk"])), default=draw(st.booleans()), seed=draw(st.integers(0, 2**31)))


@st.composite
def code_installs(draw):
    # each run takes seconds: only what is special to the code installation varies
    d = draw(installs())
    return dict(d, sets=d["sets"][:2], envdir=draw(st.sampled_from(["missing", "other", None])), old=None if draw(st.integers(0, 3)) else d["old"], want=d["want"] if d["want"] != "none such" else "main",
                url="repo" if draw(st.integers(0, 5)) else d["url"], broken=None if draw(st.integers(0, 3)) else d["broken"])


def git(d, *a):
    e = dict(os.environ, GIT_CONFIG_GLOBAL="/dev/null", GIT_CONFIG_SYSTEM="/dev/null", HOME=d, GIT_AUTHOR_DATE="2024-01-01T00:00:00Z", GIT_COMMITTER_DATE="2024-01-01T00:00:00Z")
    subprocess.run(["git", "-c", "user.name=x", "-c", "user.email=x@y.z", "-c", "init.defaultBranch=main"] + list(a), cwd=d, env=e, check=True, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)


def repository(case, tmp):
    """A repository of template sets: version k of the set in tag or branch vK, the last in main; what each has."""
    work = os.path.join(tmp, "work")
    os.mkdir(work)
    git(work, "init", "-q")
    have = []
    for k, ts in enumerate(case["sets"]):
        for f in os.listdir(work):
            if f != ".git":
                os.unlink(os.path.join(work, f))
        names = []
        for i, t in enumerate(ts):
            names.append("rrtemplate-%d-%d.fits" % (k, i))
            world.write_template(t, os.path.join(work, names[-1]))
        if case["broken"] == "junk":
            open(os.path.join(work, names[0]), "w").write("junk")
        if case["broken"] == "empty":
            for f in names:
                os.unlink(os.path.join(work, f))
            open(os.path.join(work, "README"), "w").write("%d" % k)
        if case["default"] or case["broken"] == "listed":
            with open(os.path.join(work, "templates-default.txt"), "w") as f:
                f.write("# version %d\n" % k + "".join(n + "\n" for n in names * (case["broken"] != "empty")) + "gone.fits\n" * (case["broken"] == "listed"))
        git(work, "add", "-A")
        git(work, "commit", "-q", "-m", "v%d" % k)
        git(work, "branch" if case["branch"] else "tag", "v%d" % k)
        have.append({f: open(os.path.join(work, f), "rb").read() for f in os.listdir(work) if f != ".git"})
    bare = os.path.join(tmp, "repo.git")
    git(tmp, "clone", "-q", "--bare", work, bare)
    return bare, have


def contents(d):
    return {f: open(os.path.join(d, f), "rb").read() for f in os.listdir(d) if f != ".git"}


def check_install(case, ctx, code=None):
    from redrock.templates import find_templates
    tmp = os.path.realpath(tempfile.mkdtemp(prefix="c36-"))
    bare, have = repository(case, tmp)
    url = os.path.join(tmp, case["url"])
    if case["url"].startswith("some where"):
        os.mkdir(os.path.dirname(url))
        os.rename(bare, url + ".git")
    want = case["want"]
    k = len(have) - 1 if want in ("default", "main") else want if want == "none such" else want % len(have)
    args = ["--template-url", url] + ([] if want == "default" else ["-v" if case["seed"] % 2 else "--version", want if want in ("main", "none such") else "v%d" % k])
    out = os.path.join(tmp, case["out"])
    if code is None:
        args += ["-o", case["out"] if case["out"] == "rel" else out]
    else:
        out = os.path.join(code, "py", "redrock", "data", "templates")
    if case["old"]:
        os.makedirs(os.path.dirname(out), exist_ok=True)
        if case["old"] == "file":
            open(out, "w").write("mine")
        else:
            os.mkdir(out)
            if case["old"] == "full":
                open(os.path.join(out, "rrtemplate-mine.fits"), "w").write("mine")
    env = {x: os.environ.get(x) for x in ("RR_TEMPLATE_DIR", "GIT_CONFIG_GLOBAL", "GIT_CONFIG_SYSTEM")}
    os.environ.update(GIT_CONFIG_GLOBAL="/dev/null", GIT_CONFIG_SYSTEM="/dev/null")
    os.environ.pop("RR_TEMPLATE_DIR", None)
    if case["envdir"]:
        e = os.path.join(tmp, case["envdir"])
        os.environ["RR_TEMPLATE_DIR"] = e
        if case["envdir"] == "other":
            os.mkdir(e)
            open(os.path.join(e, "rrtemplate-mine.fits"), "w").write("mine")
    cwd = os.path.join(tmp, "cwd") if case["out"] != "rel" else tmp
    os.makedirs(cwd, exist_ok=True)
    try:
        if code is None:
            try:
                rc, text = program("install_redrock_templates", args, cwd)
            except Exception as e:
                # a program that ends with an exception has failed
                rc, text = 1, "%s: %s" % (type(e).__name__, e)
        else:
            r = subprocess.run([sys.executable, "-B", os.path.join(code, "bin", "install_redrock_templates")] + args, cwd=cwd, env=dict(os.environ, PYTHONPATH=os.path.join(code, "py")),
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=300)
            rc, text = r.returncode, r.stdout.decode()
    finally:
        for x, v in env.items():
            os.environ.pop(x, None)
            if v is not None:
                os.environ[x] = v
    if case["envdir"] == "other":
        require(contents(os.path.join(tmp, "other")) == {"rrtemplate-mine.fits": b"mine"}, "$RR_TEMPLATE_DIR was changed")
    else:
        require(not os.path.exists(os.path.join(tmp, "missing")), "$RR_TEMPLATE_DIR was made")
    if case["old"]:
        require(rc != 0, "installed over %s", case["old"])
        if case["old"] == "file":
            require(open(out).read() == "mine", "the old file was changed")
        else:
            require(contents(out) == ({"rrtemplate-mine.fits": b"mine"} if case["old"] == "full" else {}), "the old directory was changed")
        ctx.label("there already")
        return
    if case["url"] == "none" or k == "none such":
        require(rc != 0, "nothing to install, exit code 0: %s", text[-300:])
        require(not os.path.exists(out), "a directory without templates was left")
        ctx.label("no such version or repository")
        return
    if case["broken"]:
        require(rc != 0, "%s set of templates installed: %s", case["broken"], text[-300:])
        ctx.label("broken set")
        return
    require(rc == 0, "installation ended with %s: %s", rc, text[-400:])
    got = contents(out)
    require(sorted(got) == sorted(have[k]) and got == have[k], "installed: %s, in version %s: %s", sorted(got), want, sorted(have[k]))
    files = find_templates(out)
    require(len(files) == len(case["sets"][k]), "%d templates of %d", len(files), len(case["sets"][k]))
    ctx.label("earlier version", k < len(have) - 1)
    ctx.label("spaces", " " in case["out"] or " " in case["url"])
    ctx.nontrivial(len(have) > 1)


def check_code(case, ctx):
    """Into the code installation: a copy of it."""
    code = os.path.join(os.path.realpath(tempfile.mkdtemp(prefix="c36-")), "code")
    os.mkdir(code)
    for d in ("py/redrock", "bin"):
        shutil.copytree(os.path.join(boot.REPO, d), os.path.join(code, d), ignore=shutil.ignore_patterns("test", "__pycache__", "templates"))
    check_install(case, ctx, code)
    if not case["old"] and case["url"] != "none" and case["want"] != "none such" and not case["broken"]:
        # a later program finds them
        env = {k: v for k, v in os.environ.items() if k != "RR_TEMPLATE_DIR"}
        r = subprocess.run([sys.executable, "-B", "-c", "import redrock.templates as t; print('N=%d' % len(t.load_templates()))"], env=dict(env, PYTHONPATH=os.path.join(code, "py")),
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=300)
        require(r.returncode == 0 and "N=" in r.stdout.decode(), "the installed templates do not load: %s", r.stdout.decode()[-300:])


def warm():
    import redrock.templates, desispec.interpolation  # noqa


FACETS = [Facet("convert", cases, check, quick=300, thorough=10000, shards=4, setup=warm,
                rule="SDSS template files of 1-14 named or unnamed spectra, types, spellings, grids, relative and absolute paths, existing outputs x rrconvertSDSStemplates or rrqsotemplate, against what Template "
                     "loads; non-trivial = several spectra"),
          Facet("install", installs, check_install, quick=100, thorough=3000, shards=4, setup=warm,
                rule="git repositories of 1-3 versions of a template set, with tags or branches x version asked for x paths x existing outputs x broken sets x $RR_TEMPLATE_DIR; non-trivial = several versions"),
          Facet("code", code_installs, check_code, quick=24, thorough=160, shards=8, setup=warm,
                rule="the same, into (a copy of) the code installation, as a process; non-trivial = several versions")]
