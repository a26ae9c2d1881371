"""An in-process MPI: ranks are threads, the schedule is owned by the harness.

Exactly one rank runs at a time; at every communication call the scheduler picks the next
runnable rank from a drawn list of choices, so an execution is a pure function of the case.
Objects cross rank boundaries by pickling.  A state in which no rank can proceed is a deadlock.
"""
import pickle, threading, traceback
import numpy as np


class Deadlock(Exception):
    pass


class Mismatch(Exception):
    """Ranks disagree about which collective operation is being executed."""


class Aborted(BaseException):
    pass


class World:
    def __init__(self, size, choices=(0,), sync=True):
        self.size = size
        self.choices = list(choices) or [0]
        self.sync = sync
        self.nsteps = 0
        self.pred = [lambda: True] * size
        self.what = ["start"] * size
        self.polls = [0] * size         # consecutive calls of test or iprobe
        self.alive = [True] * size
        self.sem = [threading.Semaphore(0) for _ in range(size)]
        self.done = threading.Event()
        self.abort = None
        self.results = [None] * size
        self.errors = []
        self.comms = {}

    # ---- scheduling
    def _next(self):
        """Called by the running thread: hand the token to some runnable rank."""
        if self.abort is not None:
            return self._wake_all()
        live = [r for r in range(self.size) if self.alive[r]]
        if not live:
            self.done.set()
            return
        runnable = [r for r in live if self.pred[r]()]
        # a rank that only looks whether something has arrived goes after the ones with work
        if runnable and all(self.polls[r] > 1000 for r in runnable):
            runnable = []
        elif runnable:
            least = min(self.polls[r] for r in runnable)
            runnable = [r for r in runnable if self.polls[r] == least]
        if not runnable:
            self.abort = Deadlock("; ".join("rank %d waits in %s" % (r, self.what[r]) for r in live)
                                  + ("; finished: %s" % [r for r in range(self.size) if not self.alive[r]]))
            return self._wake_all()
        c = self.choices[self.nsteps % len(self.choices)]
        self.nsteps += 1
        self.sem[runnable[c % len(runnable)]].release()

    def _wake_all(self):
        if not any(self.alive):
            self.done.set()
        for r in range(self.size):
            if self.alive[r]:
                self.sem[r].release()

    def wait(self, rank, what, pred, poll=False):
        self.polls[rank] = self.polls[rank] + 1 if poll else 0
        self.pred[rank] = pred
        self.what[rank] = what
        self._next()
        self.sem[rank].acquire()
        if self.abort is not None:
            raise Aborted()

    def run(self, fn, timeout=None):
        root = CommState(self, list(range(self.size)), "world")

        def main(rank):
            self.sem[rank].acquire()
            try:
                if self.abort is None:
                    self.results[rank] = fn(Comm(root, rank))
            except Aborted:
                pass
            except BaseException as e:
                self.errors.append((rank, e, traceback.format_exc()))
                if self.abort is None:
                    self.abort = e
            finally:
                self.alive[rank] = False
                self._next()

        th = [threading.Thread(target=main, args=(r,), daemon=True) for r in range(self.size)]
        for t in th:
            t.start()
        self._next()
        for t in th:
            t.join()
        if self.errors:
            raise self.errors[0][1]
        if self.abort is not None:
            raise self.abort
        return self.results


class CommState:
    def __init__(self, world, members, name):
        self.world = world
        self.members = members
        self.name = name
        self.slots = {}
        self.seq = {m: 0 for m in range(len(members))}
        self.msgs = []          # (src, dst, tag, payload, token)


class Request:
    def __init__(self, comm, token=None, recv=None):
        self.comm, self.token, self._recv = comm, token, recv

    def wait(self, status=None):
        if self._recv is not None:
            return self.comm.recv(*self._recv)
        if self.comm._s.world.sync:
            tok = self.token
            self.comm._wait("wait(isend)", lambda: tok["matched"])
        return None

    Wait = wait

    def test(self, status=None):
        self.comm._poll("test")
        if self._recv is not None:
            if self.comm._match(*self._recv[1:]) is None:
                return (False, None)
            return (True, self.comm.recv(*self._recv))
        return (self.token["matched"], None)

    def Test(self, status=None):
        return self.test()[0]

    @staticmethod
    def waitall(requests, statuses=None):
        return [r.wait() for r in requests]

    @staticmethod
    def Waitall(requests, statuses=None):
        for r in requests:
            r.wait()
        return True


def _array(buf):
    """The array of an array, or [array, datatype], argument."""
    return np.asarray(buf[0] if isinstance(buf, (list, tuple)) else buf)


def _fill(buf, value):
    a = _array(buf)
    a[...] = np.asarray(value).reshape(a.shape)


class BufferRequest(Request):
    """Irecv: the wait fills the buffer."""

    def __init__(self, comm, buf, source, tag):
        Request.__init__(self, comm, recv=(None, source, tag))
        self._buf = buf

    def wait(self, status=None):
        _fill(self._buf, Request.wait(self))
        return True

    Wait = wait

    def test(self, status=None):
        ok, value = Request.test(self)
        if ok:
            _fill(self._buf, value)
        return (ok, None)


ANY = -1


class Comm:
    def __init__(self, state, rank):
        self._s = state
        self._r = rank

    @property
    def rank(self):
        return self._r

    @property
    def size(self):
        return len(self._s.members)

    def Get_rank(self):
        return self._r

    def Get_size(self):
        return self.size

    def __getstate__(self):
        raise TypeError("communicators cannot be pickled")

    def _wait(self, what, pred, poll=False):
        self._s.world.wait(self._s.members[self._r], "%s.%s" % (self._s.name, what), pred, poll)

    def _poll(self, what):
        self._wait(what, lambda: True, poll=True)

    # ---- collectives
    def _coll(self, kind, root, value, need):
        """need(slot)-> bool: may this rank leave?"""
        s = self._s
        k = s.seq[self._r]
        s.seq[self._r] += 1
        slot = s.slots.setdefault(k, dict(kind=kind, root=root, vals={}))
        if slot["kind"] != kind or slot["root"] != root:
            raise Mismatch("collective #%d on %s: rank %d calls %s(root=%s), others %s(root=%s)"
                           % (k, s.name, self._r, kind, root, slot["kind"], slot["root"]))
        slot["vals"][self._r] = value
        n = self.size
        if s.world.sync:
            need = lambda sl: len(sl["vals"]) == n
        self._wait(kind, lambda: need(slot))
        return slot["vals"]

    def barrier(self):
        n = self.size
        self._coll("barrier", None, None, lambda sl: len(sl["vals"]) == n)

    Barrier = barrier

    def bcast(self, obj, root=0):
        p = pickle.dumps(obj) if self._r == root else None
        vals = self._coll("bcast", root, p, lambda sl: root in sl["vals"])
        return obj if self._r == root else pickle.loads(vals[root])

    def scatter(self, sendobj=None, root=0):
        p = None
        if self._r == root:
            if len(sendobj) != self.size:
                raise ValueError("scatter of %d items over %d ranks" % (len(sendobj), self.size))
            p = [pickle.dumps(x) for x in sendobj]
        vals = self._coll("scatter", root, p, lambda sl: root in sl["vals"])
        return pickle.loads(vals[root][self._r])

    def gather(self, sendobj, root=0):
        n = self.size
        r = self._r
        vals = self._coll("gather", root, pickle.dumps(sendobj),
                          (lambda sl: len(sl["vals"]) == n) if r == root else (lambda sl: True))
        if r == root:
            return [pickle.loads(vals[i]) for i in range(n)]
        return None

    def allgather(self, sendobj):
        n = self.size
        vals = self._coll("allgather", None, pickle.dumps(sendobj), lambda sl: len(sl["vals"]) == n)
        return [pickle.loads(vals[i]) for i in range(n)]

    def allreduce(self, obj, op=None):
        vals = self.allgather(obj)
        out = vals[0]
        for v in vals[1:]:
            out = out + v if op is None else op(out, v)
        return out

    def reduce(self, obj, op=None, root=0):
        vals = self.gather(obj, root)
        if vals is None:
            return None
        out = vals[0]
        for v in vals[1:]:
            out = out + v if op is None else op(out, v)
        return out

    def alltoall(self, sendobj):
        n = self.size
        if len(sendobj) != n:
            raise ValueError("alltoall of %d items over %d ranks" % (len(sendobj), n))
        vals = self._coll("alltoall", None, [pickle.dumps(x) for x in sendobj], lambda sl: len(sl["vals"]) == n)
        return [pickle.loads(vals[i][self._r]) for i in range(n)]

    # ---- the same for buffers
    def Bcast(self, buf, root=0):
        v = self.bcast(_array(buf) if self._r == root else None, root)
        if self._r != root:
            _fill(buf, v)

    def Gather(self, sendbuf, recvbuf=None, root=0):
        v = self.gather(_array(sendbuf), root)
        if v is not None:
            _fill(recvbuf, np.concatenate([x.reshape(-1) for x in v]))

    def Allgather(self, sendbuf, recvbuf):
        _fill(recvbuf, np.concatenate([x.reshape(-1) for x in self.allgather(_array(sendbuf))]))

    def Scatter(self, sendbuf, recvbuf, root=0):
        _fill(recvbuf, self.scatter(np.split(_array(sendbuf).reshape(-1), self.size) if self._r == root else None, root))

    def Allreduce(self, sendbuf, recvbuf, op=None):
        _fill(recvbuf, self.allreduce(_array(sendbuf), op))

    def Reduce(self, sendbuf, recvbuf=None, op=None, root=0):
        v = self.reduce(_array(sendbuf), op, root)
        if v is not None:
            _fill(recvbuf, v)

    def Dup(self, info=None):
        return self.Split(0, self._r)

    Clone = dup = Dup

    def Split(self, color=0, key=0):
        n = self.size
        vals = self._coll("Split", None, (color, key), lambda sl: len(sl["vals"]) == n)
        grp = sorted([r for r in range(n) if vals[r][0] == color], key=lambda r: (vals[r][1], r))
        name = "%s/%s" % (self._s.name, color)
        key_ = (self._s.name, self._s.seq[self._r], color)
        st = self._s.world.comms.setdefault(
            key_, CommState(self._s.world, [self._s.members[r] for r in grp], name))
        return Comm(st, grp.index(self._r))

    def Free(self):
        pass

    def Abort(self, code=0):
        raise RuntimeError("MPI Abort(%s) called by rank %d" % (code, self._r))

    # ---- point to point
    def isend(self, obj, dest, tag=0):
        tok = dict(matched=False)
        self._s.msgs.append((self._r, dest, tag, pickle.dumps(obj), tok))
        return Request(self, tok)

    def send(self, obj, dest, tag=0):
        tok = dict(matched=False)
        self._s.msgs.append((self._r, dest, tag, pickle.dumps(obj), tok))
        if self._s.world.sync:
            self._wait("send to %d" % dest, lambda: tok["matched"])

    def _match(self, source, tag):
        for i, m in enumerate(self._s.msgs):
            if m[1] == self._r and source in (ANY, None, m[0]) and tag in (ANY, None, m[2]):
                return i
        return None

    def recv(self, buf=None, source=ANY, tag=ANY, status=None):
        self._wait("recv from %s" % source, lambda: self._match(source, tag) is not None)
        i = self._match(source, tag)
        m = self._s.msgs.pop(i)
        m[4]["matched"] = True
        return pickle.loads(m[3])

    def irecv(self, buf=None, source=ANY, tag=ANY):
        return Request(self, recv=(None, source, tag))

    def sendrecv(self, sendobj, dest, sendtag=0, recvbuf=None, source=ANY, recvtag=ANY, status=None):
        self.isend(sendobj, dest, sendtag)
        return self.recv(None, source, recvtag)

    def ssend(self, obj, dest, tag=0):
        tok = dict(matched=False)
        self._s.msgs.append((self._r, dest, tag, pickle.dumps(obj), tok))
        self._wait("ssend to %d" % dest, lambda: tok["matched"])

    def issend(self, obj, dest, tag=0):
        return self.isend(obj, dest, tag)

    def probe(self, source=ANY, tag=ANY, status=None):
        self._wait("probe of %s" % source, lambda: self._match(source, tag) is not None)
        return True

    def iprobe(self, source=ANY, tag=ANY, status=None):
        self._poll("iprobe")
        return self._match(source, tag) is not None

    def Send(self, buf, dest, tag=0):
        self.send(_array(buf).copy(), dest, tag)

    def Isend(self, buf, dest, tag=0):
        return self.isend(_array(buf).copy(), dest, tag)

    def Recv(self, buf, source=ANY, tag=ANY, status=None):
        _fill(buf, self.recv(None, source, tag))

    def Irecv(self, buf, source=ANY, tag=ANY):
        return BufferRequest(self, buf, source, tag)
