"""C31: wrap-redrock runs every unprocessed file once."""
import os, sys, io, re, shlex, stat, tempfile, argparse, contextlib, subprocess, threading, types, time
import importlib.machinery, importlib.util
import numpy as np
from hypothesis import strategies as st
from vlib.core import Facet, require, fail
from vlib import world, fakempi, boot
from vlib import desifiles as D

ASSUMPTIONS = ["rrdesi and rrboss are replaced by a recording script in the facets plan and calls; its arguments go through the real option parsers", "file names are distinct over all directories, as outputs "
               "may go to one directory", "MPI is emulated", "batch systems are not run: the printed script is judged by its options"]
STUB = r'''#!/bin/sh
REC=%s
f=$(mktemp $REC/call.XXXXXX)
echo "${0##*/}" > $f
base=
for a in "$@"; do
  printf '%%s\n' "$a" >> $f
  if [ -e "$REC/in/${a##*/}" ]; then base=${a##*/}; fi
done
echo "log of $f"
for k in 3 2 1; do
  if [ -e "$REC/in/$base.fail$k" ]; then
    mv "$REC/in/$base.fail$k" "$REC/in/$base.fail$((k-1))"
    exit 3
  fi
done
if [ -e "$REC/in/$base.lazy" ]; then exit 0; fi
p=
for a in "$@"; do
  case "$p" in -o|--outfile|--output|--zbest|-d|--details) [ -e "$a" ] || echo new > "$a";; esac
  p="$a"
done
exit 0
'''


def load():
    path = os.path.join(boot.REPO, "bin", "wrap-redrock")
    l = importlib.machinery.SourceFileLoader("wrap_redrock", path)
    m = importlib.util.module_from_spec(importlib.util.spec_from_loader("wrap_redrock", l))
    m.__file__ = path
    l.exec_module(m)
    return m


class Parsed(Exception):
    pass


def namespace(fn, args=None, argv=None):
    """What the option parser of fn makes of the arguments."""
    def stop(ns):
        e = Parsed()
        e.ns = ns
        raise e
    old, oargv = argparse.ArgumentParser.parse_args, sys.argv

    def parse(self, a=None, n=None):
        stop(old(self, a, n))
    argparse.ArgumentParser.parse_args = parse
    if argv is not None:
        sys.argv = argv
    err = io.StringIO()
    try:
        with contextlib.redirect_stderr(err), contextlib.redirect_stdout(err):
            fn() if args is None else fn(args)
    except Parsed as e:
        return vars(e.ns)
    except SystemExit:
        fail("the command %s is refused: %s", args or argv, err.getvalue().strip().split("\n")[-1])
    finally:
        argparse.ArgumentParser.parse_args = old
        sys.argv = oargv
    fail("arguments %s were not parsed", args or argv)


@st.composite
def trees(draw, boss):
    names = draw(st.sampled_from([["100", "101", "2345"], ["healpix/main/dark/1", "healpix/main/dark/23"], ["tiles/77/20210101", "tiles/77/deep"], ["7", "8/9", "big run/5"]]))
    n = draw(st.integers(1, 9 if not boss else 14))
    F = []
    for k in range(n):
        F.append(dict(dir=draw(st.integers(0, len(names) - 1)), nt=draw(st.sampled_from([1, 2, 5, 40, 3000, 9000]) if not boss else st.just(1)), dup=draw(st.integers(1, 2)),
                      done=draw(st.sampled_from(["no"] * 5 + ["both", "red", "det"])), logs=draw(st.sampled_from([0, 0, 0, 1, 2, 3])), act=draw(st.sampled_from(["ok"] * 6 + ["fail1", "fail2", "fail3", "lazy"]))))
    return dict(names=names, files=F, link=draw(st.integers(0, 3)) == 0, noise=draw(st.booleans()), avoid=draw(st.integers(0, 2)) == 0)


@st.composite
def cases(draw):
    boss = draw(st.integers(0, 2)) == 0
    return dict(boss=boss, tree=draw(trees(boss)), root=draw(st.sampled_from(["redux", "redux", "redux", "my redux", "it's $HOME"])), outdir=draw(st.sampled_from([None, None, None, "out", "a/b", "a b/c"])), size=draw(st.sampled_from([0, 1, 2, 3, 4, 5])), plan=draw(st.integers(0, 2)) == 0,
                maxnodes=draw(st.sampled_from([None, None, 1, 2, 30])), nminima=draw(st.sampled_from([None, 1, 5])), mp=draw(st.sampled_from([None, 1, 3, 4, 16])), arch=draw(st.integers(0, 3)) == 0,
                nompi=draw(st.integers(0, 3)) == 0, dry=draw(st.integers(0, 5)) == 0, alldone=draw(st.integers(0, 9)) == 0, prefix=draw(st.sampled_from([None, None, "coadd"])),
                rel=draw(st.integers(0, 3)) == 0, choices=draw(st.lists(st.integers(0, 9), max_size=6)), grow=draw(st.integers(0, 3)) == 0)


def build(case, tmp):
    """The tree; returns for each file its paths, in a dict by basename."""
    from astropy.io import fits
    t = case["tree"]
    red = os.path.join(tmp, case["root"])
    prefix = case["prefix"] or ("spPlate" if case["boss"] else "spectra")
    out = {}
    files = list(t["files"])
    if case["grow"] and case["plan"]:
        files = files * 12
    for k, f in enumerate(files):
        d = os.path.join(red, t["names"][f["dir"]])
        if t["link"] and f["dir"] == 0:
            d = os.path.join(tmp, "elsewhere")
        os.makedirs(d, exist_ok=True)
        if t["link"] and f["dir"] == 0:
            l = os.path.join(red, "linked")
            if not os.path.islink(l):
                os.makedirs(red, exist_ok=True)
                os.symlink(d, l)
            d = l
        base = "%s-%d-%d.fits" % (prefix, 4000 + k, 55000 + k)
        p = os.path.join(d, base)
        ids = np.repeat(np.arange(f["nt"]) + world.BIG + 10**4 * k, f["dup"])
        if case["boss"]:
            open(p, "w").write("plate")
        else:
            c = fits.Column(name="TARGETID", format="K", array=ids)
            fits.HDUList([fits.PrimaryHDU(), fits.BinTableHDU.from_columns([c], name="FIBERMAP")]).writeto(p)
        od = os.path.join(tmp, case["outdir"]) if case["outdir"] else d
        os.makedirs(od, exist_ok=True)
        stem = base[len(prefix):-5]
        r = dict(path=p, red=os.path.join(od, "redrock" + stem + ".fits"), det=os.path.join(od, "rrdetails" + stem + ".h5"), log=os.path.join(od, "redrock" + stem + ".log"), nt=f["nt"], act=f["act"])
        r["done"] = "both" if case["alldone"] else f["done"]
        if r["done"] in ("both", "red"):
            open(r["red"], "w").write("old")
        if r["done"] in ("both", "det"):
            open(r["det"], "w").write("old")
        r["old"] = []
        if f["logs"] and r["done"] != "both":
            for x in [r["log"]] + [r["log"] + ".%d" % i for i in range(f["logs"] - 1)]:
                open(x, "w").write("earlier " + os.path.basename(x))
                r["old"].append("earlier " + os.path.basename(x))
        out[base] = r
    if t["noise"]:
        d = os.path.join(red, t["names"][-1])
        os.makedirs(d, exist_ok=True)
        for n in ("other-1-2.fits", prefix + "-9-9.txt", "x" + prefix + "-9-8.fits"):
            open(os.path.join(d, n), "w").write("x")
    if t["avoid"] and case["boss"]:
        # reduced spectra, which are not to be traversed
        for d in ("spectra", "spectra/full/100"):
            os.makedirs(os.path.join(red, d), exist_ok=True)
            open(os.path.join(red, d, prefix + "-1-%d.fits" % len(d)), "w").write("x")
    return red, out


class Ranks(types.ModuleType):
    @property
    def COMM_WORLD(self):
        return threading.current_thread().vr_comm


def launch(mod, argv, case):
    """main() in every rank; returns what was printed."""
    old = {k: sys.modules.get(k) for k in ("mpi4py", "mpi4py.MPI")}
    text = io.StringIO()
    oargv, sleep = sys.argv, time.sleep
    sys.argv = argv
    time.sleep = lambda s: None
    try:
        with contextlib.redirect_stdout(text):
            if case["size"] and not case["nompi"]:
                pk = types.ModuleType("mpi4py")
                pk.MPI = Ranks("mpi4py.MPI")
                sys.modules["mpi4py"], sys.modules["mpi4py.MPI"] = pk, pk.MPI

                def rank(comm):
                    threading.current_thread().vr_comm = comm
                    mod.main()
                fakempi.World(case["size"], case["choices"]).run(rank)
            else:
                mod.main()
    finally:
        sys.argv, time.sleep = oargv, sleep
        for k, v in old.items():
            if v is None:
                sys.modules.pop(k, None)
            else:
                sys.modules[k] = v
    return text.getvalue()


def check(case, ctx):
    from redrock.external.desi import rrdesi
    from redrock.external.boss import rrboss
    tmp = os.path.realpath(tempfile.mkdtemp(prefix="c31-"))
    red, files = build(case, tmp)
    rec, bindir = os.path.join(tmp, "rec"), os.path.join(tmp, "bin")
    os.makedirs(os.path.join(rec, "in")), os.makedirs(bindir)
    for b, r in files.items():
        open(os.path.join(rec, "in", b), "w").close()
        if r["act"] != "ok":
            open(os.path.join(rec, "in", b + "." + r["act"]), "w").close()
    for n in ("rrdesi", "rrboss"):
        p = os.path.join(bindir, n)
        open(p, "w").write(STUB % shlex.quote(rec))
        os.chmod(p, 0o755)
    arch = os.path.join(tmp, "archetypes" if case["root"] == "redux" else "arche types") if case["arch"] else None
    argv = ["wrap-redrock", "--reduxdir", os.path.relpath(red, tmp) if case["rel"] else red]
    for k, v in (("--outdir", case["outdir"] and (case["outdir"] if case["rel"] else os.path.join(tmp, case["outdir"]))), ("--archetypes", arch), ("--mp", case["mp"]), ("--maxnodes", case["maxnodes"]),
                 ("--nminima", case["nminima"]), ("--prefix", case["prefix"]), ("--datatype", "boss" if case["boss"] else None)):
        if v is not None:
            argv += [k, str(v)]
    argv += ["--nompi"] * case["nompi"] + ["--dryrun"] * case["dry"] + ["--plan"] * case["plan"]
    todo = {b: r for b, r in files.items() if r["done"] != "both"}
    mod = load()
    before = {os.path.join(d, f): open(os.path.join(d, f), "rb").read() for d, _, fs in os.walk(tmp, followlinks=True) for f in fs if not d.startswith(rec)}
    cwd, path = os.getcwd(), os.environ["PATH"]
    env = {k: os.environ.pop(k) for k in ("NERSC_HOST",) if k in os.environ}
    os.chdir(tmp)
    os.environ["PATH"] = bindir + ":" + path
    try:
        text = launch(mod, argv, case)
    finally:
        os.chdir(cwd)
        os.environ["PATH"] = path
        os.environ.update(env)
    calls = [open(os.path.join(rec, x)).read().split("\n")[:-1] for x in os.listdir(rec) if x.startswith("call.")]
    size = case["size"] if case["size"] and not case["nompi"] else 1
    ctx.label("nothing to do", not todo)
    if case["plan"]:
        require(not calls, "planning ran %s", calls)
        judge_plan(case, ctx, mod, text, todo, tmp, argv, size)
    else:
        judge_calls(case, ctx, calls, text, todo, files, tmp, arch, size, rrdesi, rrboss)
    after = {os.path.join(d, f): open(os.path.join(d, f), "rb").read() for d, _, fs in os.walk(tmp, followlinks=True) for f in fs if not d.startswith(rec)}
    for p, x in before.items():
        if not any(os.path.realpath(p).startswith(os.path.realpath(r["log"])) for r in todo.values()):
            require(after.get(p) == x, "%s was changed", p)
    if case["plan"] or case["dry"] or not todo:
        require(set(after) == set(before), "files made without a run: %s", sorted(set(after) - set(before)))


def balance(case, ctx, text, todo, size):
    """All files, evenly over the ranks."""
    boss = case["boss"]
    ranks = re.findall(r"Rank (\d+) RUNNING .*?(%s)" % "|".join(map(re.escape, todo)), text) if todo else []
    require(sorted(b for k, b in ranks) == sorted(todo), "commands for %s, to do are %s", ranks, sorted(todo))
    if not boss and todo and len(ranks) == len(todo):
        w = np.zeros(size)
        t = {b: 30 + 0.4 * r["nt"] for b, r in todo.items()}
        for k, b in ranks:
            w[int(k)] += t[b]
        require(w.max() <= sum(t.values()) / size + max(t.values()) * (1 - 1 / size) + 1e-6, "runtimes of the ranks: %s, of the files %s", w, t)
        ctx.label("balance judged", size > 1)
    if boss and todo and len(ranks) == len(todo):
        w = np.bincount([int(k) for k, b in ranks], minlength=size)
        require(w.max() - w.min() <= 1, "%d plates, on the ranks: %s", len(todo), w)
        ctx.label("plates judged", size > 1)


def judge_calls(case, ctx, calls, text, todo, files, tmp, arch, size, rrdesi, rrboss):
    boss = case["boss"]
    if case["dry"]:
        require(not calls, "dry run ran %s", calls)
        balance(case, ctx, text, todo, size)
        ctx.label("dry run")
        return
    seen = {}
    for c in calls:
        require(c[0] == ("rrboss" if boss else "rrdesi"), "%s was run for %s data", c[0], "boss" if boss else "desi")
        ns = namespace(rrboss if boss else rrdesi, c[1:])
        base = namespace(rrboss if boss else rrdesi, ["--spplate" if boss else "-i", "x"])
        real = lambda p: None if p is None else os.path.realpath(os.path.join(tmp, p))
        src = ns.pop("spplate" if boss else "infiles")
        base.pop("spplate" if boss else "infiles")
        require(len(src) == 1, "inputs %s of one command", src)
        b = os.path.basename(src[0])
        require(b in files and real(src[0]) == real(files[b]["path"]), "input %s is not one of the files", src[0])
        require(b in todo, "%s was processed already", src[0])
        r = files[b]
        for k, w in (("zbest" if boss else "outfile", r["red"]), ("output" if boss else "details", r["det"])):
            require(real(ns.pop(k)) == real(w), "%s of %s: command %s, expected %s", k, b, c, w)
            base.pop(k)
        for k, w in (("mp", case["mp"]), ("nminima", 3 if case["nminima"] is None else case["nminima"]), ("archetypes", arch)):
            x, d = ns.pop(k), base.pop(k)
            require(x == (d if w is None else w), "option --%s is %s in %s", k, x, c)
        require(ns == base, "options of the command: %s, by default %s", ns, base)
        seen[b] = seen.get(b, 0) + 1
    for b, r in todo.items():
        n = dict(ok=1, lazy=1).get(r["act"], 2)
        require(seen.get(b, 0) == n, "%s (%s) was run %d times, not %d", b, r["act"], seen.get(b, 0), n)
        logs = [p for p in os.listdir(os.path.dirname(r["log"])) if p == os.path.basename(r["log"]) or p.startswith(os.path.basename(r["log"]) + ".")]
        have = sorted(open(os.path.join(os.path.dirname(r["log"]), p)).read().strip() for p in logs)
        require(len(have) == len(r["old"]) + n and all(o in have for o in r["old"]) and sum(h.startswith("log of") for h in have) == n,
                "logs of %s, run %d times: %s; earlier ones: %s", b, n, have, r["old"])
        good = r["act"] in ("ok", "fail1")
        for p in (r["red"], r["det"]):
            require(os.path.exists(p) or not good, "%s is missing", p)
        if not os.path.exists(r["red"]):
            require(any("missing" in l and os.path.basename(r["red"]) in l for l in text.split("\n")), "missing output %s is not reported", r["red"])
            ctx.label("missing output")
        else:
            require(not any(l.startswith("ERROR missing") and os.path.basename(r["red"]) in l for l in text.split("\n")), "output %s is reported missing", r["red"])
    balance(case, ctx, text, todo, size)
    ctx.label("boss", boss)
    ctx.label("ranks without files", size > len(todo))
    ctx.label("failures", any(r["act"].startswith("fail") for r in todo.values()))
    ctx.nontrivial(len(todo) > 1)


def judge_plan(case, ctx, mod, text, todo, tmp, argv, size):
    if not todo:
        require("SBATCH" not in text, "a batch job for no files")
        return
    n = re.findall(r"#SBATCH -N (\d+)", text)
    require(len(n) == 1, "no number of nodes in the plan")
    n = int(n[0])
    limit = case["maxnodes"] or 256
    mpi = case["size"] and not case["nompi"]
    require(1 <= n <= (max(limit, size) if mpi else limit), "%d nodes, limit %d", n, limit)
    require(mpi or n <= len(todo) or not case["boss"], "%d nodes for %d files", n, len(todo))
    m = re.findall(r"# (\d+) pixels with (\d+) targets", text)
    require(len(m) == 1 and int(m[0][0]) == len(todo), "%s pixels planned, there are %d", m, len(todo))
    total = sum(1000 if case["boss"] else r["nt"] for r in todo.values())
    require(int(m[0][1]) == total, "%s targets planned, there are %d", m[0][1], total)
    t = np.array([250.0 if case["boss"] else 30 + 0.4 * r["nt"] for r in todo.values()])
    low = max(t.max(), t.sum() / n) + (30 if case["boss"] else 0)
    if case["mp"] and case["mp"] < 4:
        low *= 4 / case["mp"]
    h = re.findall(r"#SBATCH -t (\d+):(\d+):(\d+)", text)
    require(len(h) == 1, "no time in the plan")
    sec = int(h[0][0]) * 3600 + int(h[0][1]) * 60 + int(h[0][2])
    require(int(h[0][1]) < 60 and int(h[0][2]) < 60, "time %s", h)
    require(low * 1.05 <= sec <= 2 * low * 1.25 + 120, "%d s asked for, the longest rank needs at least %g s", sec, low)
    srun = [l for l in text.split("\n") if l.startswith("srun")]
    require(len(srun) == 1, "commands of the plan: %s", srun)
    w = shlex.split(srun[0])
    k = [i for i, x in enumerate(w) if os.path.basename(x) == "wrap-redrock"]
    require(len(k) == 1, "command of the plan: %s", srun[0])
    got = namespace(mod.main, argv=w[k[0]:])
    want = namespace(mod.main, argv=[a for a in argv if a != "--plan"])
    require(not got["plan"], "the planned job plans again")
    for key in ("reduxdir", "outdir", "archetypes"):
        x, y = [None if d[key] is None else os.path.realpath(os.path.join(tmp, d[key])) for d in (got, want)]
        require(x == y, "the planned job has --%s %s, not %s", key, x, y)
    for key in ("nminima", "datatype"):
        require(got[key] == want[key], "the planned job has --%s %s, not %s", key, got[key], want[key])
    pre = lambda d: d["prefix"] or dict(desi="spectra", boss="spPlate")[d["datatype"]]
    require(pre(got) == pre(want), "the planned job has --prefix %s, not %s", pre(got), pre(want))
    require(case["mp"] is None or got["mp"] == case["mp"], "the planned job has --mp %s, not %s", got["mp"], case["mp"])
    ctx.label("plan")
    ctx.label("several nodes", n > 1)
    ctx.nontrivial(len(todo) > 1)


# ---------------------------------------------------------------- the programs themselves
@st.composite
def script_cases(draw):
    from checks import c26
    boss = draw(st.integers(0, 2)) == 0
    fs = [draw(D.filespecs(nfmin=1, nfmax=1, ntmax=3, npix=(24, 40), expmax=2))[0] for _ in range(draw(st.integers(1, 2)))]
    ps = draw(c26.cases())
    ps.update(form="one", ps=ps["ps"][:1])
    return dict(boss=boss, fs=fs, plate=ps, ts=draw(world.template_specs(1, 2, nzmin=8, nzmax=12, nbmax=2)), size=draw(st.sampled_from([0, 1, 2, 3])), nompi=False,
                login=draw(st.integers(0, 3)) == 0, choices=draw(st.lists(st.integers(0, 9), max_size=6)), mpi=draw(st.booleans()), nminima=draw(st.sampled_from([1, 2])))


def inputs(case, tmp, ts):
    """Input files, each in a directory of its own."""
    from checks import c26
    out = []
    if case["boss"]:
        d = os.path.join(tmp, "redux", "4000")
        os.makedirs(d)
        names, _ = c26.write(case["plate"], d, lambda k: lambda w, i: np.interp(w, ts[0].wave, ts[0].flux[0]))
        return names
    for k, f in enumerate(case["fs"]):
        d = os.path.join(tmp, "redux", str(100 + k))
        os.makedirs(d)
        out.append(os.path.join(d, "spectra-%d.fits" % (100 + k)))
        D.write(out[-1], f, ts)
    return out


def same_outputs(a, b):
    from checks.c34 import tables
    x, y = [tables(dict(o=q[0], d=q[1])) for q in (a, b)]
    require(list(x) == list(y), "tables %s, expected %s", list(x), list(y))
    for k in x:
        if k == "details" or hasattr(x[k], "colnames"):
            require(x[k].colnames == y[k].colnames and len(x[k]) == len(y[k]), "table %s: columns %s or rows", k, x[k].colnames)
            for c in x[k].colnames:
                u, v = np.asarray(x[k][c]), np.asarray(y[k][c])
                require(u.shape == v.shape and (np.allclose(u, v, rtol=1e-9, atol=1e-12, equal_nan=True) if u.dtype.kind == "f" else np.array_equal(u, v)), "column %s of %s: %s, expected %s", c, k, u, v)


def prepare(case):
    from redrock.templates import Template
    tmp = os.path.realpath(tempfile.mkdtemp(prefix="c31-"))
    tdir = os.path.join(tmp, "templates")
    os.mkdir(tdir)
    for k, t in enumerate(case["ts"]):
        world.write_template(t, os.path.join(tdir, "rrtemplate-%02d.fits" % k))
    ts = [Template(os.path.join(tdir, n)) for n in sorted(os.listdir(tdir))]
    with open(os.path.join(tdir, "templates-default.txt"), "w") as f:
        f.write("".join("rrtemplate-%02d.fits\n" % k for k in range(len(ts))))
    return tmp, tdir, inputs(case, tmp, ts)


def direct(case, src, tdir, out):
    from redrock.external.desi import rrdesi
    from redrock.external.boss import rrboss
    o = ["--nminima", str(case["nminima"]), "--mp", "1", "-t", tdir]
    if case["boss"]:
        rrboss(["--spplate", src, "--zbest", out[0], "--output", out[1]] + o)
    else:
        rrdesi(["-i", src, "-o", out[0], "-d", out[1]] + o)


def check_scripts(case, ctx):
    tmp, tdir, names = prepare(case)
    src = names[0]
    ref = os.path.join(tmp, "ref.fits"), os.path.join(tmp, "ref.h5")
    direct(case, src, tdir, ref)
    out = os.path.join(tmp, "o.fits"), os.path.join(tmp, "o.h5")
    name = ("rrboss" if case["boss"] else "rrdesi") + "_mpi" * case["mpi"]
    path = os.path.join(boot.REPO, "bin", name)
    code = compile(open(path).read(), path, "exec")
    prog = types.SimpleNamespace(main=lambda: exec(code, dict(__name__="__main__", __file__=path)))
    argv = [name] + (["--spplate", src, "--zbest", out[0], "--output", out[1]] if case["boss"] else ["-i", src, "-o", out[0], "-d", out[1]])
    argv += ["--nminima", str(case["nminima"]), "--mp", "1", "-t", tdir]
    # a login node has no MPI; programs without MPI run once
    c = dict(case, size=case["size"] if case["mpi"] and not case["login"] else 0)
    env = {k: os.environ.pop(k) for k in ("NERSC_HOST", "SLURM_JOB_NAME") if k in os.environ}
    if case["login"]:
        os.environ["NERSC_HOST"] = "perlmutter"
    try:
        launch(prog, argv, c)
    finally:
        os.environ.pop("NERSC_HOST", None)
        os.environ.update(env)
    require(os.path.exists(out[0]) and os.path.exists(out[1]), "%s has not written its outputs", name)
    same_outputs(out, ref)
    ctx.label(name)
    ctx.nontrivial(c["size"] > 1)


def check_real(case, ctx):
    tmp, tdir, names = prepare(case)
    env = dict(os.environ, PATH=os.path.join(boot.REPO, "bin") + ":" + os.environ["PATH"], RR_TEMPLATE_DIR=tdir)
    env.pop("NERSC_HOST", None)
    cmd = ["wrap-redrock", "--reduxdir", os.path.join(tmp, "redux"), "--outdir", os.path.join(tmp, "out"), "--nompi", "--mp", "1", "--nminima", str(case["nminima"])]
    r = subprocess.run(cmd + ["--datatype", "boss"] * case["boss"], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=600)
    require(r.returncode == 0, "%s ended with %d: %s", cmd, r.returncode, r.stdout.decode()[-500:])
    for k, src in enumerate(names):
        b = os.path.basename(src)[:-5].replace("spPlate" if case["boss"] else "spectra", "")
        out = os.path.join(tmp, "out", "redrock%s.fits" % b), os.path.join(tmp, "out", "rrdetails%s.h5" % b)
        log = os.path.join(tmp, "out", "redrock%s.log" % b)
        require(os.path.exists(out[0]) and os.path.exists(out[1]), "outputs of %s are missing: %s %s", src, r.stdout.decode()[-500:], open(log).read()[-500:] if os.path.exists(log) else "no log")
        ref = os.path.join(tmp, "ref%d.fits" % k), os.path.join(tmp, "ref%d.h5" % k)
        direct(case, src, tdir, ref)
        same_outputs(out, ref)
    ctx.label("boss", case["boss"])
    ctx.nontrivial()


def warm():
    import redrock.external.desi, redrock.external.boss  # noqa


FACETS = [Facet("calls", cases, check, quick=400, thorough=12000, shards=8, setup=warm,
                rule="trees of 1-9 DESI or SDSS files, some processed, half processed, linked, to be avoided, next to other files x output directory x options x 0-5 emulated ranks x failing and lazy commands "
                     "x earlier logs x plans and dry runs; the commands run, their options, logs, reports and the printed batch script; non-trivial = several files to do"),
          Facet("scripts", script_cases, check_scripts, quick=60, thorough=1500, shards=8, setup=warm,
                rule="rrdesi, rrboss and their MPI programs on a spectra file or plate x 0-3 emulated ranks x login node; outputs against direct calls; non-trivial = several ranks"),
          Facet("real", script_cases, check_real, quick=6, thorough=60, shards=6, setup=warm,
                rule="wrap-redrock without MPI and the programs it starts, as processes, on 1-2 spectra files or a plate; outputs against direct calls; non-trivial = all")]
