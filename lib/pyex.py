"""Exhaustive bounded exploration of real Python code: depth-first enumeration of every sequence of choices of a job.

    @job("name", shards=4)
    def body(): x = choose(3); ... check(cond, "key", "message", x)

main() runs one job and prints its coverage and the violations as RESULT {json}. A violation is replayed from its choice
sequence (--replay NAME c0 c1 ...) before it is reported."""
import hashlib, io, json, math, os, signal, sys, time, traceback

TIER = os.environ.get("VERIF_TIER", "quick")
JOBS = {}


class Prune(Exception):
    pass


class Hang(BaseException):
    pass


class Engine:
    pass


E = Engine()
E.path, E.width, E.pos, E.prefix, E.shard, E.nshards = [], [], 0, 0, 0, 1
E.states, E.outcomes, E.samples, E.violations, E.counters = set(), set(), [], {}, {}
E.executions = E.transitions = E.evaluations = E.pruned = 0
E.keys, E.log, E.logging, E.beat, E.seen = set(), [], False, 0, {}


def job(name, shards=1, thorough=False):
    def deco(f):
        JOBS[name] = (f, shards, thorough)
        return f
    return deco


def tier(q, t):
    return t if TIER == "thorough" else q


def choose(n):
    E.beat += 1
    if n <= 0:
        raise SystemExit("HARNESS-ERROR choose with no alternative")
    if E.pos < len(E.path):
        if E.pos < len(E.width) and E.width[E.pos] != n:
            raise SystemExit("HARNESS-ERROR divergence while replaying a prefix")
        if E.pos >= len(E.width):
            E.width.append(n)
    else:
        first = E.shard if E.pos == 0 else 0
        if E.pos == 0 and E.nshards > 1 and first >= n:
            E.path.append(n - 1), E.width.append(n)
            E.pos += 1
            raise Prune()
        E.path.append(first), E.width.append(n)
    r = E.path[E.pos]
    E.pos += 1
    return r


def flip():
    return choose(2) == 1


def pick(seq):
    seq = list(seq)
    return seq[choose(len(seq))]


def subset(seq):
    return [x for x in seq if choose(2)]


def permutation(seq):
    seq, r = list(seq), []
    while seq:
        r.append(seq.pop(choose(len(seq))))
    return r


def _h(x):
    return hashlib.blake2b(repr(x).encode(), digest_size=8).digest()


def state(x):
    E.states.add(_h(x))


def outcome(x):
    E.outcomes.add(_h(x))


def step(n=1):
    E.transitions += n
    E.beat += 1


def count(k, n=1):
    E.counters[k] = E.counters.get(k, 0) + n


def sample(*a):
    if len(E.samples) < 3:
        E.samples.append("".join(str(x) for x in a)[:300])


def log(*a):
    if E.logging:
        E.log.append("".join(str(x) for x in a)[:500])


def fail(key, *a):
    msg = "".join(str(x) for x in a)[:1500]
    E.keys.add(key)
    if E.logging:
        E.log.append("VIOLATED %s: %s" % (key, msg))
    v = E.violations.get(key)
    if v is None:
        if len(E.violations) < 40:
            E.violations[key] = dict(key=key, msg=msg, path=list(E.path[:E.pos]), log=[])
    elif E.pos < len(v["path"]) and not E.logging:
        E.violations[key] = dict(key=key, msg=msg, path=list(E.path[:E.pos]), log=[])


def check(cond, key, *a):
    E.evaluations += 1
    E.beat += 1
    if not cond:
        fail(key, *a)
    return bool(cond)


def near(a, b, tol=1e-9):
    import numpy as np
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and bool(np.all(np.abs(a - b) <= tol * (1 + np.maximum(np.abs(a), np.abs(b)))))


def raises(exc, f, *a, **k):
    """True iff the call raises (one of) exc"""
    try:
        f(*a, **k)
    except exc:
        return True
    return False


def _once(name, f):
    E.pos, E.keys, E.log = 0, set(), []
    out, err = sys.stdout, sys.stderr
    try:
        f()
    except Prune:
        pass
    except Hang:
        fail("hang:" + name, "no progress: the code under test does not return")
    except SystemExit as x:
        if str(x).startswith("HARNESS-ERROR"):
            sys.stdout, sys.stderr = out, err
            raise
        fail("uncaught-exception:" + name, "the code under test exits: ", x)
    except BaseException as x:
        fail("uncaught-exception:" + name, "an exception escaped: ", traceback.format_exc()[-700:])
    finally:
        sys.stdout, sys.stderr = out, err
    E.executions += 1


def _backtrack():
    del E.path[E.pos:]
    del E.width[len(E.path):]
    while E.path:
        i = len(E.path) - 1
        nxt = E.path[i] + (E.nshards if i == 0 else 1)
        if nxt < E.width[i]:
            E.path[i] = nxt
            E.prefix = len(E.path)
            return True
        E.path.pop(), E.width.pop()
    return False


def run(name):
    f = JOBS[name][0]
    E.path, E.width = [], []
    while True:
        _once(name, f)
        if "hang:" + name in E.keys or not _backtrack():
            break
    found = dict(E.violations)
    n, ev, tr = E.executions, E.evaluations, E.transitions
    for k, v in found.items():
        if k.startswith("hang:"):
            continue
        E.path, E.width, E.logging = list(v["path"]), [], True
        s = E.shard, E.nshards
        E.shard, E.nshards = 0, 1
        _once(name, f)
        E.shard, E.nshards = s
        E.logging = False
        if k not in E.keys:
            raise SystemExit("HARNESS-ERROR violation %s did not reproduce on replay" % k)
        v["log"] = E.log[:200]
    return dict(states=len(E.states), outcomes=len(E.outcomes), transitions=tr or ev, evaluations=ev, executions=n, traces=n,
                samples=E.samples, counters=E.counters, violations=list(found.values()))


def main():
    a = sys.argv[1:]
    if a[0] == "--list":
        for n, (f, s, t) in JOBS.items():
            print("JOB", n, s, int(t))
        return
    last = [-1]

    def tick(*_):
        if E.beat == last[0]:
            raise Hang()
        last[0] = E.beat
    if a[0] != "--replay" and threading_main():
        signal.signal(signal.SIGALRM, tick)
        signal.setitimer(signal.ITIMER_REAL, 45, 45)
    if a[0] == "--replay":
        E.path, E.logging = [int(x) for x in a[2:]], True
        _once(a[1], JOBS[a[1]][0])
        print("\n".join(E.log), "\n", "VIOLATED" if E.keys else "HELD")
        sys.exit(1 if E.keys else 0)
    E.shard, E.nshards = int(a[1]), int(a[2])
    r = run(a[0])
    sys.stdout.flush()
    print("\nRESULT " + json.dumps(r), flush=True)
    os._exit(0)


def threading_main():
    import threading
    return threading.current_thread() is threading.main_thread()
