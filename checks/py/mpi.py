"""C39: slicing, the layer without MPI, and the mpi4py layer under virtual ranks"""
import os, sys, types
import numpy as np
from pyex import *
import triqs_env as te
te.setup()
import vranks as vr


def layer(comm):
    """a fresh instance of mpi_mpi4py.py for one rank"""
    m = te.load_source("utility/mpi_mpi4py.py", {"mpi4py": vr.mpi4py_module(comm)})
    w = comm.w
    m.time = types.SimpleNamespace(sleep=lambda s: w.switch(comm.rank, yielding=True))
    return m


class fixed_comm:
    def __init__(self, rank, size):
        self.r, self.s = rank, size

    def Get_rank(self):
        return self.r

    def Get_size(self):
        return self.s


@job("slices", shards=4)
def slices():
    size = choose(tier(9, 17)) + 1
    n = choose(tier(40, 80))
    offset = pick([0, 1, 7, -3])
    parts = []
    A = np.arange(n * 2).reshape(n, 2)
    mods = _mods(size)
    for r in range(size):
        m = mods[r]
        lo, up = m.slice_inf(offset, offset + n - 1), m.slice_sup(offset, offset + n - 1)
        parts.append((lo, up))
        s = m.slice_array(A)
        check(s.base is not None and (s.size == 0 or np.shares_memory(s, A)), "slice-not-a-view", n, size, r)
        check(offset != 0 or s.tolist() == A[lo:up + 1].tolist(), "slice-array-differs-from-bounds", n, " ", size, " ", r)
    nxt = offset
    for lo, up in parts:
        check(lo == nxt, "slices-not-contiguous", "n=", n, " size=", size, " offset=", offset, " ", parts)
        nxt = up + 1
    check(nxt == offset + n, "slices-not-complete", "n=", n, " size=", size, " ", parts)
    lens = [u - l + 1 for l, u in parts]
    check(max(lens) - min(lens) <= 1, "slices-not-balanced", n, " ", size, " ", lens)
    state((n, size, tuple(parts)))
    sample("n=", n, " size=", size, " -> ", parts)


_cache = {}


def _mods(size):
    if size not in _cache:
        _cache[size] = [te.load_source("utility/mpi_mpi4py.py", {"mpi4py": vr.mpi4py_module(fixed_comm(r, size))}) for r in range(size)]
    return _cache[size]


VALUES = [0, 1, None, "", "x", [], [1, 2], {}, {"a": 1}, (1,), 2.5, 1 + 2j, True, False, np.arange(3), np.zeros((2, 0))]


def same(a, b):
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        return type(a) == type(b) and a.shape == b.shape and a.dtype == b.dtype and (a == b).all()
    return type(a) == type(b) and a == b


@job("nompi")
def nompi():
    m = te.load_source("utility/mpi_nompi.py", {})
    with te.quiet() as q:
        check(m.rank == 0 and m.size == 1 and m.is_master_node() is True, "nompi-rank-size")
        fifo = []
        for k in range(tier(4, 5)):
            op = choose(5)
            step()
            if op == 0:
                v = VALUES[k * 3 % len(VALUES)]
                m.send(v, 0)
                fifo.append(v)
                state(("send", len(fifo)))
            elif op == 1:
                if not fifo:
                    check(raises(Exception, m.recv), "nompi-recv-of-nothing")
                    try:
                        m.recv()
                    except Exception as x:
                        check(not isinstance(x, (NameError, TypeError, IndexError)), "nompi-recv-of-nothing-error", repr(x))
                else:
                    v = m.recv() if k % 2 else m.recv(source=0)
                    check(same(v, fifo.pop(0)), "nompi-recv-order", v)
                state(("recv", len(fifo)))
            elif op == 2:
                for v in VALUES:
                    check(m.bcast(v) is v and m.bcast(v, root=0) is v and m.bcast(v, 0) is v, "nompi-bcast", v)
            elif op == 3:
                for v in VALUES:
                    if v is not None:
                        check(m.all_reduce(v) is v and m.all_reduce(v, comm=m.world) is v and m.all_reduce(v, m.world, lambda x, y: x * y) is v, "nompi-all-reduce", v)
                    check(v is None or m.all_reduce(None, v) is v, "nompi-all-reduce-old-signature", v)
            else:
                check(m.barrier() is None and m.barrier(0) is None and m.barrier(poll_msec=3) is None, "nompi-barrier")
                A = np.arange(6).reshape(3, 2)
                check(m.slice_array(A) is A or (np.shares_memory(m.slice_array(A), A) and same(m.slice_array(A), A)), "nompi-slice")
                q.text.clear()
                m.report("a", 3)
                check("".join(q.text) == "a\n3\n", "nompi-report", q.text)
                q.text.clear()
                m.master_gets_host_names()
                check("Node 0" in "".join(q.text), "nompi-host-names")
        while fifo:
            check(same(m.recv(), fifo.pop(0)), "nompi-recv-order-end")


@job("names")
def names():
    """both layers export what user code calls"""
    a = te.load_source("utility/mpi_nompi.py", {})
    b = _mods(2)[0]
    for n in ["world", "rank", "size", "report", "is_master_node", "bcast", "barrier", "all_reduce", "send", "recv", "slice_array", "master_gets_host_names"]:
        check(hasattr(a, n) and hasattr(b, n), "missing-name:" + n)
    env = subset(["OMPI_COMM_WORLD_RANK", "PMI_RANK", "CRAY_MPICH_VERSION", "TRIQS_FORCE_MPI_INIT", "OTHER"])
    import sys
    for k in env:
        os.environ[k] = "0"
    stub1, stub2 = types.ModuleType("a"), types.ModuleType("b")
    stub1.which, stub2.which = "mpi4py", "nompi"
    try:
        import triqs.utility
        m = _load_switch(stub1, stub2)
    finally:
        for k in env:
            os.environ.pop(k, None)
    want = "mpi4py" if set(env) - {"OTHER"} else "nompi"
    check(m == want, "wrong-layer", env, " ", m)
    outcome((m,))
    state(tuple(env))


def _load_switch(s1, s2):
    src = open(os.path.join(te.PY, "utility", "mpi.py.in")).read()
    ns = {"__name__": "triqs.utility.mpi_under_test", "__package__": "triqs.utility"}
    saved = {k: sys.modules.get(k) for k in ("triqs.utility.mpi_mpi4py", "triqs.utility.mpi_nompi")}
    sys.modules["triqs.utility.mpi_mpi4py"], sys.modules["triqs.utility.mpi_nompi"] = s1, s2
    try:
        with te.quiet():
            exec(compile(src, "mpi.py.in", "exec"), ns)
    finally:
        for k, v in saved.items():
            if v is None:
                sys.modules.pop(k, None)
            else:
                sys.modules[k] = v
    return ns.get("which")


@job("ranks", shards=8)
def ranks():
    """a script of communication calls on every rank, under every schedule within the bound"""
    ops = ["bcast", "all_reduce", "p2p", "barrier", "hosts", "irecv", "old_reduce", "report"]
    first, second = pick(ops), pick(ops)
    size = choose(tier(2, 3)) + 2
    eager = flip()
    root = choose(size)
    w = vr.World(size, deviations=tier(2, 3), delays=1, eager=eager)
    log = []

    def body(r, comm):
        m = layer(comm)
        check(m.rank == r and m.size == size and m.is_master_node() == (r == 0), "rank-size")
        for k, o in enumerate((first, second)):
            if o == "bcast":
                v = VALUES[(3 * k + root + 5) % len(VALUES)]
                got = m.bcast(v if r == root else ("other", r), root=root)
                check(same(got, v), "bcast-value", got, " expected ", v)
            elif o == "all_reduce":
                kind = (k + root) % 4
                if kind == 0:
                    check(m.all_reduce(r + 1) == size * (size + 1) // 2, "all-reduce-sum")
                elif kind == 1:
                    check(same(m.all_reduce(np.array([r, 1.5 * r])), np.array([0, 0.]) + sum(np.array([i, 1.5 * i]) for i in range(size))), "all-reduce-array")
                elif kind == 2:
                    check(m.all_reduce(r * 7 % 3, op=vr.MAX) == max(i * 7 % 3 for i in range(size)), "all-reduce-max")
                else:
                    check(m.all_reduce([r], comm=m.world) == list(range(size)), "all-reduce-list")
            elif o == "old_reduce":
                check(m.all_reduce(m.world, r + 1) == size * (size + 1) // 2, "all-reduce-old-signature")
            elif o == "p2p":
                vals = [VALUES[(i + k) % len(VALUES)] for i in range(3)]
                src, dst = root, (root + 1) % size
                if r == src:
                    for v in vals:
                        m.send(v, dst)
                elif r == dst:
                    got = [m.recv(src) if i % 2 else m.recv(source=src) for i in range(3)]
                    check(all(same(a, b) for a, b in zip(got, vals)), "p2p-order", got)
            elif o == "irecv":
                if r == root:
                    req = m.irecv((root + 1) % size)
                    done = False
                    while not done:
                        done, v = req.test()
                    check(v == ("msg", k), "irecv-value", v)
                elif r == (root + 1) % size:
                    m.send(("msg", k), root)
            elif o == "barrier":
                log.append(("in", k, r))
                m.barrier(*[(), (0,), (None,), (2,)][(root + k) % 4])
                check(sum(x[0] == "in" and x[1] == k for x in log) == size, "barrier-left-early", log)
            elif o == "hosts":
                m.master_gets_host_names()
                if r == 0:
                    check(sorted(m.HostNames) == list(range(size)), "host-names", m.HostNames)
            else:
                m.report("node", r)
                m.report("e%d" % r, stderr=True)
                m.report("hidden", Verbosity_Level=5)
        return r
    with te.quiet() as q:
        w.run(body)
    text = "".join(q.text)
    check(w.aborting is None, "ranks-stuck:" + str(w.aborting), first, " ", second, " size=", size, " eager=", eager)
    for r, x in w.errors.items():
        fail("rank-raised", first, " ", second, " rank ", r, " of ", size, ": ", repr(x))
    check(len(w.results) == size, "rank-did-not-finish", w.results)
    check(not any(w.queues.values()), "messages-left", {k: len(v) for k, v in w.queues.items() if v})
    nrep = (first == "report") + (second == "report")
    check(text.count("node\n") == nrep and text.count("e0\n") == nrep and "e1\n" not in text and "hidden" not in text, "report-not-from-master-only", text)
    outcome((first, second, size, eager, tuple(w.trace)))
    state((first, second, size, eager, root, tuple(w.trace), w.dev))


if __name__ == "__main__":
    main()
