"""Facets, violations, and the sharded Hypothesis runner."""
import os, sys, json, time, hashlib, traceback, signal, tempfile, collections, pickle, errno, subprocess
import select

NPROC = int(os.environ.get("VERIF_NPROC", "0")) or (os.cpu_count() or 4)


class Violation(Exception):
    """The property does not hold for this case."""


class StopShrink(KeyboardInterrupt):
    """Raised inside a run to abandon further shrinking (budget used up)."""


class Ctx:
    """Handed to every check call: records labels and non-triviality."""

    def __init__(self, replay=False):
        self.labels = []
        self.nontriv = False
        self.replay = replay
        self.note = None

    def label(self, name, on=True):
        if on:
            self.labels.append(name)

    def nontrivial(self, on=True):
        if on:
            self.nontriv = True


SCALE = float(os.environ.get("VERIF_SCALE", "2.5"))                           # quick cases = number in the check x SCALE (about 25 s per check)


class Facet:
    """One generated check: strategy -> case (JSON-able) -> check(case, ctx)."""

    def __init__(self, name, strategy, check, quick, thorough=None, shards=4, rule="",
                 thorough_shards=None, setup=None, allow_exc=()):
        self.name = name
        self.strategy = strategy          # callable returning a SearchStrategy
        self.check = check
        self.quick = quick if quick < 50 else int(quick * SCALE)
        self.thorough = thorough if thorough is not None else quick * 10
        self.shards = shards
        self.thorough_shards = thorough_shards or max(shards, 8)
        self.rule = rule
        self.setup = setup
        self.allow_exc = allow_exc


def fail(msg, *a):
    raise Violation(msg % a if a else msg)


def require(cond, msg, *a):
    if not cond:
        fail(msg, *a)


def canon(case):
    return json.dumps(case, sort_keys=True)


def _in_sut(tb, repo):
    """Does the traceback pass through code under test?"""
    base = os.path.join(repo, "")
    for fr in traceback.extract_tb(tb):
        if os.path.abspath(fr.filename).startswith(base):
            return True
    return False


def run_case(facet, case, ctx, repo):
    """Run one case; any exception out of the code under test is a Violation."""
    try:
        facet.check(case, ctx)
    except (Violation, KeyboardInterrupt):
        raise
    except Exception as e:
        if type(e).__module__.split(".")[0] == "hypothesis":
            raise
        if isinstance(e, MemoryError):
            raise
        if _in_sut(e.__traceback__, repo):
            tb = traceback.extract_tb(e.__traceback__)
            where = [f for f in tb if os.path.abspath(f.filename).startswith(repo)]
            loc = "%s:%s" % (os.path.relpath(where[-1].filename, repo), where[-1].name)
            v = Violation("unexpected %s in %s: %s" % (type(e).__name__, loc, str(e)[:300]))
            raise v from e
        if _environment(e):
            raise
        # the answer does not have the form every answer has (a missing column, key, file, ...), or never comes (an emulated deadlock)
        tb = traceback.extract_tb(e.__traceback__)[-1]
        raise Violation("the answer cannot be judged: %s at %s:%d: %s" % (type(e).__name__, os.path.basename(tb.filename), tb.lineno, str(e)[:300])) from e


def _environment(e):
    """Failures of the machine rather than of the code under test."""
    if isinstance(e, (TimeoutError, subprocess.TimeoutExpired, BlockingIOError)):
        return True
    if isinstance(e, OSError):
        return e.errno in (errno.ENOSPC, errno.ENOMEM, errno.EMFILE, errno.ENFILE, errno.EAGAIN, errno.EDQUOT)
    if type(e).__name__ == "Remote":
        return e.name in ("TimeoutError", "MemoryError", "TimeoutExpired", "BlockingIOError")
    return type(e).__name__ == "ChildDied" and ("status 9 " in str(e) or "status -9 " in str(e))


def _shard_seed(base, prop, facet, shard):
    h = hashlib.sha256(("%s|%s|%s|%d" % (base, prop, facet, shard)).encode()).digest()
    return int.from_bytes(h[:6], "big")


def _run_shard(prop, facet, shard, nex, seed, repo, curfile, shrink_s, known):
    """Executed in a forked child.  Returns a result dict."""
    import hypothesis
    from hypothesis import given, settings, HealthCheck, Phase
    res = dict(facet=facet.name, shard=shard, evals=0, nontrivial=set(), labels=collections.Counter(),
               samples=[], failure=None, error=None, known=collections.Counter())
    # the first case hypothesis draws is always the smallest: shard 0 evaluates it, the others do not
    state = dict(best=None, t_fail=None, skip=shard > 0)

    def body(case):
        if state["skip"]:
            state["skip"] = False
            return
        ctx = Ctx()
        text = canon(case)
        with open(curfile, "w") as f:
            f.write(text)
        res["evals"] += 1
        try:
            run_case(facet, json.loads(text), ctx, repo)
        except Violation as v:
            for k in known:
                if k.matches(prop, facet.name, case, str(v)):
                    res["known"][k.id] += 1
                    return
            if state["t_fail"] is None:
                state["t_fail"] = time.monotonic()
            b = state["best"]
            if b is None or len(text) <= len(b[0]):
                state["best"] = (text, str(v), traceback.format_exc())
            if time.monotonic() - state["t_fail"] > shrink_s:
                raise StopShrink()
            raise
        for l in ctx.labels:
            res["labels"][l] += 1
        if ctx.nontriv:
            res["nontrivial"].add(hashlib.sha256(text.encode()).hexdigest()[:16])
            if len(res["samples"]) < 2 and len(text) < 3000:
                res["samples"].append(json.loads(text))

    test = given(facet.strategy())(body)
    test = settings(max_examples=nex + (shard > 0), deadline=None, database=None, print_blob=False,
                    report_multiple_bugs=False, derandomize=False,
                    phases=[Phase.generate, Phase.shrink],
                    suppress_health_check=list(HealthCheck))(test)
    test = hypothesis.seed(seed)(test)
    try:
        test()
    except (Violation, StopShrink):
        pass
    except KeyboardInterrupt:
        raise
    except BaseException as e:
        # hypothesis wraps non-reproducing failures (Flaky*); a recorded violation stands
        if state["best"] is None:
            res["error"] = traceback.format_exc()
    if state["best"] is not None:
        text, msg, tb = state["best"]
        res["failure"] = dict(case=json.loads(text), message=msg, traceback=tb)
    return res


HANG_CPU = 150.0     # seconds of CPU time in one case; ordinary cases take less than 10


def _cpu(pid):
    try:
        f = open("/proc/%d/stat" % pid).read().rsplit(")", 1)[1].split()
        return (int(f[11]) + int(f[12])) / os.sysconf("SC_CLK_TCK")
    except (OSError, IndexError, ValueError):
        return 0.0


def _stamp(path):
    try:
        return os.stat(path).st_mtime_ns
    except OSError:
        return None


class Pool:
    """Fork one child per shard, NPROC at a time; collect pickled results over pipes."""

    def __init__(self, nproc=NPROC):
        self.nproc = nproc

    def run(self, jobs, timeout, stop_on_failure=True):
        """jobs: list of (key, callable(curfile) -> result).  Yields results in job order."""
        pending = list(enumerate(jobs))
        running = {}
        out = [None] * len(jobs)
        t_end = time.monotonic() + timeout
        tmp = tempfile.mkdtemp(prefix="vrr-")
        stop = False
        watch, hung = {}, set()
        try:
            while pending or running:
                while pending and len(running) < self.nproc and not stop:
                    idx, (key, fn) = pending.pop(0)
                    cur = os.path.join(tmp, "cur%d" % idx)
                    r, w = os.pipe()
                    pid = os.fork()
                    if pid == 0:
                        code = 0
                        try:
                            os.setpgid(0, 0)
                            os.close(r)
                            dn = os.open(os.devnull, os.O_RDWR)
                            os.dup2(dn, 0)
                            os.dup2(dn, 1)
                            log = os.open(os.path.join(tmp, "log%d" % idx),
                                          os.O_WRONLY | os.O_CREAT | os.O_TRUNC)
                            os.dup2(log, 2)
                            sys.stdout = open(os.devnull, "w")
                            scratch = os.path.join(tmp, "scratch%d" % idx)
                            os.mkdir(scratch)
                            os.environ["TMPDIR"] = tempfile.tempdir = scratch
                            res = fn(cur)
                            with os.fdopen(w, "wb") as f:
                                pickle.dump(res, f)
                        except BaseException:
                            traceback.print_exc(file=sys.stderr)
                            sys.stderr.flush()
                            code = 77
                        finally:
                            os._exit(code)
                    os.close(w)
                    running[r] = (idx, key, pid, cur, [])
                if stop:
                    pending = []
                if not running:
                    break
                for r, (idx, key, pid, cur, buf) in running.items():
                    # one case that computes for minutes is an endless loop; CPU time does not depend on what else runs here
                    now, c = _cpu(pid), _stamp(cur)
                    if c is None or watch.get(pid, (None, 0))[0] != c:
                        watch[pid] = (c, now)
                    elif now - watch[pid][1] > HANG_CPU and pid not in hung:
                        hung.add(pid)
                        try:
                            os.killpg(pid, signal.SIGKILL)
                        except OSError:
                            os.kill(pid, signal.SIGKILL)
                left = t_end - time.monotonic()
                rl, _, _ = select.select(list(running), [], [], max(0.0, min(left, 5.0)))
                for r in rl:
                    idx, key, pid, cur, buf = running[r]
                    chunk = os.read(r, 1 << 16)
                    if chunk:
                        buf.append(chunk)
                        continue
                    os.close(r)
                    del running[r]
                    _, status = os.waitpid(pid, 0)
                    try:
                        os.killpg(pid, signal.SIGKILL)
                    except OSError:
                        pass
                    res = None
                    if buf and os.WIFEXITED(status) and os.WEXITSTATUS(status) == 0:
                        res = pickle.loads(b"".join(buf))
                    else:
                        log = ""
                        try:
                            log = open(os.path.join(tmp, "log%d" % idx)).read()[-4000:]
                        except OSError:
                            pass
                        case = None
                        try:
                            case = json.load(open(cur))
                        except Exception:
                            pass
                        res = dict(died=status, log=log, case=case, key=key)
                        if pid in hung and case is not None:
                            res["hung"] = True
                    out[idx] = res
                    if stop_on_failure and (res.get("failure") or res.get("died") is not None):
                        stop = True
                if time.monotonic() > t_end:
                    for r, (idx, key, pid, cur, buf) in list(running.items()):
                        try:
                            os.killpg(pid, signal.SIGKILL)
                        except OSError:
                            os.kill(pid, signal.SIGKILL)
                        os.waitpid(pid, 0)
                        os.close(r)
                        case = None
                        try:
                            case = json.load(open(cur))
                        except Exception:
                            pass
                        out[idx] = dict(timeout=True, key=key, case=case)
                    running = {}
                    pending = []
        finally:
            import shutil
            for r, (idx, key, pid, cur, buf) in list(running.items()):
                try:
                    os.killpg(pid, signal.SIGKILL)
                    os.waitpid(pid, 0)
                except OSError:
                    pass
            shutil.rmtree(tmp, ignore_errors=True)
        return out
