"""Virtual MPI ranks for Python code: each rank is a thread, exactly one runs at a time, control moves only at communication
calls and is decided by the exploration engine. Presents the interface of mpi4py."""
import os, pickle, threading, types
import numpy as np
from pyex import choose, fail, step, E


class Abort(BaseException):
    pass


class Deadlock(Exception):
    pass


class World:
    """deviations: how often the scheduler may pick another rank than the default one; delays: how often a posted request may say not yet;
    eager: whether a blocking send returns before it is received"""

    def __init__(self, size, deviations=2, delays=1, eager=True, max_polls=60):
        self.size, self.dev, self.delays, self.eager, self.max_polls = size, deviations, delays, eager, max_polls
        self.queues = {(i, j): [] for i in range(size) for j in range(size)}
        self.blocked = {}
        self.done = set()
        self.sem = [threading.Semaphore(0) for _ in range(size)]
        self.main = threading.Semaphore(0)
        self.coll = {}
        self.ncoll = [0] * size
        self.aborting = None
        self.errors, self.results = {}, {}
        self.trace = []
        self.polls = 0
        self.error = None

    # ------------------------------------------------------- scheduling
    def _runnable(self):
        return [r for r in range(self.size) if r not in self.done and (r not in self.blocked or self.blocked[r]())]

    def _next(self, cur):
        """the rank to run now"""
        run = self._runnable()
        if not run:
            return None
        order = [r for r in run if r == cur] + [r for r in run if r > cur] + [r for r in run if r < cur]
        i = 0
        if self.dev > 0 and len(order) > 1:
            i = choose(len(order))
            if i:
                self.dev -= 1
        return order[i]

    def switch(self, me, ready=None, yielding=False):
        """a scheduling point of rank me; ready: condition to wait for"""
        if self.aborting:
            raise Abort()
        step()
        if ready is not None and not ready():
            self.blocked[me] = ready
        try:
            n = self._next(me if not yielding else (me + 1) % self.size)
        except BaseException as x:
            self.error = x
            self.abort("engine")
            raise Abort()
        if n is None:
            self.abort("deadlock")
            raise Abort()
        if n != me:
            self.sem[n].release()
            self.sem[me].acquire()
        self.blocked.pop(me, None)
        if self.aborting:
            raise Abort()

    def abort(self, why):
        if not self.aborting:
            self.aborting = why

    def progress(self):
        self.polls = 0

    def poll(self, me):
        """one turn of a polling loop of rank me: the others run; detects that nothing progresses any more"""
        self.polls += 1
        if self.polls > self.max_polls:
            self.abort("livelock")
            raise Abort()
        self.switch(me, yielding=True)

    def run(self, body):
        """body(rank, comm); returns {rank: result}; exceptions in self.errors, self.aborting tells deadlock/livelock"""
        pid = os.getpid()

        def thread(r):
            self.sem[r].acquire()
            try:
                if not self.aborting:
                    self.results[r] = body(r, Comm(self, r))
            except Abort:
                pass
            except BaseException as x:
                self.errors[r] = x
            if os.getpid() != pid:
                os._exit(77)
            self.done.add(r)
            left = [q for q in range(self.size) if q not in self.done]
            if not left:
                self.main.release()
                return
            if self.aborting:
                n = left[0]
            else:
                try:
                    n = self._next(r)
                except BaseException as x:
                    self.error = x
                    self.abort("engine")
                    n = left[0]
                if n is None:
                    self.abort("deadlock" if not self.errors else "stuck after an exception")
                    n = left[0]
            self.sem[n].release()
        ts = [threading.Thread(target=thread, args=(r,), daemon=True) for r in range(self.size)]
        for t in ts:
            t.start()
        self.sem[0].release()
        self.main.acquire()
        for t in ts:
            t.join()
        if self.error is not None:
            raise self.error
        return self.results


class Request:
    def __init__(self, w, me, src):
        self.w, self.me, self.src, self.delays = w, me, src, 0

    def _ready(self):
        return bool(self.w.queues[self.src, self.me])

    def test(self):
        w = self.w
        w.poll(self.me)
        if self._ready():
            if w.delays > 0:
                if choose(2):
                    w.delays -= 1
                    return False, None
            w.progress()
            return True, pickle.loads(w.queues[self.src, self.me].pop(0))
        return False, None

    def wait(self):
        self.w.switch(self.me, self._ready)
        return pickle.loads(self.w.queues[self.src, self.me].pop(0))


class BarrierRequest:
    def __init__(self, w, me, n):
        self.w, self.me, self.n = w, me, n

    def Test(self):
        self.w.poll(self.me)
        d = self.w.coll[self.n]
        if len(d) == self.w.size:
            self.w.progress()
            return True
        return False


class Op:
    def __init__(self, name, f):
        self.name, self.f = name, f


SUM, PROD = Op("SUM", lambda a, b: a + b), Op("PROD", lambda a, b: a * b)
MAX, MIN = Op("MAX", lambda a, b: max(a, b)), Op("MIN", lambda a, b: min(a, b))


class Intracomm:
    pass


class Comm(Intracomm):
    def __init__(self, w, rank):
        self.w, self.rank, self.size = w, rank, w.size

    def Get_rank(self):
        return self.rank

    def Get_size(self):
        return self.size

    def send(self, val, dest, tag=0):
        w = self.w
        data = pickle.dumps(val)
        w.trace.append(("send", self.rank, dest))
        q = w.queues[self.rank, dest]
        token = [data]
        q.append(data)
        w.progress()
        if w.eager:
            w.switch(self.rank)
        else:
            n = len(q)
            got = w.__dict__.setdefault("popped", {})
            w.switch(self.rank, lambda: not any(x is data for x in q))

    def recv(self, source=0, tag=0):
        w = self.w
        q = w.queues[source, self.rank]
        w.switch(self.rank, lambda: bool(q))
        w.progress()
        return pickle.loads(q.pop(0))

    def irecv(self, buf=None, source=0, tag=0):
        return Request(self.w, self.rank, source)

    def _collect(self, kind, val):
        """one collective call: waits until all ranks came, returns {rank: (kind, value)}"""
        w = self.w
        n = w.ncoll[self.rank]
        w.ncoll[self.rank] += 1
        d = w.coll.setdefault(n, {})
        d[self.rank] = (kind, val)
        w.progress()
        if len({k for k, _ in d.values()}) > 1:
            w.abort("mismatched collective calls %s" % {r: k for r, (k, _) in d.items()})
            raise Abort()
        return n, d

    def _coll(self, kind, val):
        n, d = self._collect(kind, pickle.dumps(val))
        self.w.switch(self.rank, lambda: len(d) == self.w.size)
        return {r: pickle.loads(v) for r, (_, v) in d.items()}

    def bcast(self, x, root=0):
        d = self._coll(("bcast", root), x)
        return x if self.rank == root else d[root]

    def allreduce(self, x, op=SUM):
        if not isinstance(op, Op):
            raise TypeError("not an Op")
        d = self._coll(("allreduce", op.name), x)
        r = d[0]
        for i in range(1, self.size):
            r = op.f(r, d[i])
        return r

    def reduce(self, x, op=SUM, root=0):
        d = self._coll(("reduce", op.name, root), x)
        r = d[0]
        for i in range(1, self.size):
            r = op.f(r, d[i])
        return r if self.rank == root else None

    def barrier(self):
        self._coll("barrier", None)
    Barrier = barrier

    def Ibarrier(self):
        n, d = self._collect("barrier", pickle.dumps(None))
        return BarrierRequest(self.w, self.rank, n)


def mpi4py_module(comm):
    m = types.ModuleType("mpi4py")
    m.MPI = types.SimpleNamespace(COMM_WORLD=comm, SUM=SUM, PROD=PROD, MAX=MAX, MIN=MIN, Intracomm=Intracomm, Op=Op)
    return m
