"""C40: distribution of tasks over virtual nodes; the master computes in a forked process"""
import os, sys, types
from pyex import *
import triqs_env as te
te.setup()
import vranks as vr

TASKS = {"ints": [1, 2, 3, 4], "falsy": [0, "", (), False], "none-value": [5, None, 7], "one": [3], "empty": [], "repeated": [2, 2, 2], "zeros": [0, 0],
         "lists": [[], [1], {}], "long": [1, 2, 3, 4, 5, 6]}


def run_case(name, size, deviations, delays, waits, eager, kind, master_slow=0):
    tasks = list(TASKS[name])
    given = tuple(tasks) if kind == "tuple" else iter(list(tasks)) if kind == "iterator" else tasks
    before = list(tasks)
    w = vr.World(size, deviations=deviations, delays=delays, eager=eager, max_polls=80 + 40 * len(tasks))
    path = os.path.abspath("log")
    open(path, "w").close()
    budget = [waits]
    real = os.waitpid

    def body(r, comm):
        m = te.load_source("utility/mpi_mpi4py.py", {"mpi4py": vr.mpi4py_module(comm)})
        m.time = types.SimpleNamespace(sleep=lambda s: w.switch(r, yielding=True))
        d = te.load_source("utility/dist_on_nodes.py", {"triqs.utility.mpi": m})

        def waitpid(pid, flag):
            w.poll(r)
            if budget[0] > 0 and choose(2):
                budget[0] -= 1
                return 0, 0
            w.progress()
            res = real(pid, 0)
            check(res[1] == 0, "computing-process-failed", name, " exit status ", res[1])
            return res
        o = types.SimpleNamespace(waitpid=waitpid, fork=os.fork, _exit=os._exit, WNOHANG=os.WNOHANG, unlink=os.unlink, remove=os.remove, path=os.path, getpid=os.getpid)
        d.os = o
        d.time = types.SimpleNamespace(sleep=lambda s: w.switch(r, yielding=True))

        class D(d.DistributionOnNodesOneStack):
            def the_function(self, x):
                f = os.open(path, os.O_WRONLY | os.O_APPEND)
                os.write(f, (repr(x) + "\n").encode())
                os.close(f)
                return ("res", x, repr(x))
        return D(given).run()
    with te.quiet():
        w.run(body)
    where = "%s on %d nodes, eager=%s, %s" % (name, size, eager, kind)
    for r, x in w.errors.items():
        fail("node-raised", where, ": rank ", r, " ", repr(x))
    check(w.aborting is None, "nodes-stuck:" + str(w.aborting), where)
    if w.errors or w.aborting:
        return
    check(tasks == before, "caller-list-changed", where, tasks)
    done = sorted(open(path).read().split("\n")[:-1])
    want = sorted(repr(x) for x in before if x is not None)
    check(done == want, "task-not-exactly-once", where, ": executed ", done, " expected ", want)
    res = w.results[0]
    got = sorted(repr(x) for _, x in res)
    check(got == sorted(repr(("res", x, repr(x))) for x in before if x is not None), "result-not-exactly-once", where, ": ", got)
    check(all(0 <= n < size for n, _ in res), "result-from-unknown-node", where, res)
    check(not any(w.queues.values()), "messages-left", where)
    ns = tuple(n for n, _ in res)
    outcome((name, size, ns))
    state((name, size, eager, kind, ns, tuple(w.trace)))
    if ns:
        sample(where, ": computed by nodes ", ns)


@job("schedules", shards=27)
def schedules():
    k = choose(54)
    name, size, eager = sorted(TASKS)[k // 6], k // 2 % 3 + 1, k % 2 == 1
    n = len(TASKS[name])
    many = n >= 3 and size == 3 and name != "none-value"
    if n > 4:
        run_case(name, size, 1, 0, 1, eager, "list")
    else:
        run_case(name, size, tier(1 if many else 2, 3), tier(1, 2), tier(1 if n >= 3 and size == 3 else 2, 2), eager, "list")


@job("inputs")
def inputs():
    name = pick(sorted(TASKS))
    size = choose(4) + 1
    run_case(name, size, 0, 1, 1, flip(), pick(["tuple", "iterator"]))


if __name__ == "__main__":
    main()
