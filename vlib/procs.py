"""Run a function in a child process (which may start workers of its own) under a progress watchdog."""
import os, sys, time, pickle, select, signal, traceback


class Hang(Exception):
    pass


class ChildDied(Exception):
    pass


class Remote(Exception):
    """An exception raised in the child."""

    def __init__(self, name, msg, tb, in_sut):
        Exception.__init__(self, "%s: %s" % (name, msg))
        self.name, self.tb, self.in_sut = name, tb, in_sut


def _procs():
    out = {}
    for p in os.listdir("/proc"):
        if p.isdigit():
            try:
                with open("/proc/%s/stat" % p) as f:
                    s = f.read()
            except OSError:
                continue
            f = s[s.rindex(")") + 2:].split()
            out[int(p)] = (f[0], int(f[1]), int(f[11]) + int(f[12]))     # state, ppid, cpu ticks
    return out


def descendants(pid, extra=()):
    t = _procs()
    keep = set([pid]) | set(e for e in extra if e in t)
    grew = True
    while grew:
        grew = False
        for p, (st, pp, cpu) in t.items():
            if pp in keep and p not in keep:
                keep.add(p)
                grew = True
    return {p: t[p] for p in keep if p in t}


def run(fn, idle=20.0, total=300.0, repo=None):
    """Return fn() computed in a child.  Hang: every process of the child's tree slept for `idle` seconds without using any CPU."""
    from . import boot
    from .core import _in_sut
    repo = repo or boot.REPO
    r, w = os.pipe()
    sys.stdout.flush()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        code = 1
        try:
            try:
                res = ("ok", fn())
            except Exception as e:
                res = ("exc", type(e).__name__, str(e), traceback.format_exc(), _in_sut(e.__traceback__, repo))
            except SystemExit as e:
                res = ("exc", "SystemExit", str(e), traceback.format_exc(), True)
            with os.fdopen(w, "wb") as f:
                pickle.dump(res, f)
            code = 0
        except BaseException:
            traceback.print_exc(file=sys.stderr)
            sys.stderr.flush()
        finally:
            os._exit(code)
    os.close(w)
    known = {pid}
    buf = []
    last = None
    t_last = t0 = time.monotonic()
    try:
        while True:
            rl, _, _ = select.select([r], [], [], 0.5)
            if rl:
                chunk = os.read(r, 1 << 16)
                if not chunk:
                    break
                buf.append(chunk)
                t_last = time.monotonic()
                continue
            d = descendants(pid, known)
            known |= set(d)
            sig = tuple(sorted((p, v[2]) for p, v in d.items()))
            busy = any(v[0] in "RD" for v in d.values())
            now = time.monotonic()
            if busy or sig != last:
                last, t_last = sig, now
            if now - t_last > idle:
                raise Hang("no process of %d made any progress for %.0f s" % (len(d), idle))
            if max([v[2] for v in d.values()] or [0]) > 150 * os.sysconf("SC_CLK_TCK"):
                raise Hang("a process has been computing for more than 150 s")
            if now - t0 > total:
                raise TimeoutError("child still running after %.0f s" % total)
    finally:
        os.close(r)
        known |= set(descendants(pid, known))
        for p in known:
            try:
                if p == pid and buf:
                    continue
                os.kill(p, signal.SIGKILL)
            except OSError:
                pass
        _, st = os.waitpid(pid, 0)
    if not buf:
        raise ChildDied("child ended with status %d and no answer" % st)
    res = pickle.loads(b"".join(buf))
    if res[0] == "exc":
        raise Remote(*res[1:])
    return res[1]


def fork(fn):
    """fn() in a forked child, so that nothing it leaves behind in the process (caches, globals) reaches the caller."""
    from . import boot
    from .core import _in_sut, Violation
    r, w = os.pipe()
    sys.stdout.flush()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        code = 1
        try:
            try:
                res = ("ok", fn())
            except Violation as e:
                res = ("viol", str(e))
            except Exception as e:
                res = ("exc", type(e).__name__, str(e), traceback.format_exc(), _in_sut(e.__traceback__, boot.REPO))
            with os.fdopen(w, "wb") as f:
                pickle.dump(res, f)
            code = 0
        except BaseException:
            traceback.print_exc(file=sys.stderr)
            sys.stderr.flush()
        finally:
            os._exit(code)
    os.close(w)
    with os.fdopen(r, "rb") as f:
        buf = f.read()
    _, st = os.waitpid(pid, 0)
    if not buf:
        raise ChildDied("child ended with status %d and no answer" % st)
    res = pickle.loads(buf)
    if res[0] == "viol":
        raise Violation(res[1])
    if res[0] == "exc":
        if res[4]:
            raise Violation("unexpected %s: %s\n%s" % (res[1], res[2][:300], res[3][-1500:]))
        raise Remote(*res[1:])
    return res[1]
