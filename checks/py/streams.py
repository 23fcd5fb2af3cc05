"""C49: capture_stdout over all nestings and exits; start/stop_redirect over all interleavings of its thread with the writer"""
import io, os, sys, threading, types
from pyex import *
import triqs_env as te
te.setup()
from triqs.utility.capture_stdout import capture_stdout

TEXTS = ["a", "b\n", "", "c\nd\n", "\n", "e\n\nf", "\u00e9\n"]


class Boom(Exception):
    pass


def program(depth, size, expect, outer):
    """runs a chosen program, whose text goes to the innermost capture; returns nothing, raises Boom"""
    for k in range(size):
        op = choose(4 if depth else 3)
        step()
        if op == 0:
            t = pick(TEXTS[1:6] if depth == tier(2, 3) else ["a", "e\n\nf"])
            print(t, end="") if flip() else sys.stdout.write(t)
            expect.append(t)
        elif op == 1:
            return
        elif op == 2:
            raise Boom()
        else:
            before = sys.stdout
            mine = []
            cap = None
            try:
                with capture_stdout() as cap:
                    check(sys.stdout is not before, "not-captured")
                    program(depth - 1, size - 1, mine, before)
            except Boom:
                if flip():
                    check(sys.stdout is before, "stream-not-restored-after-exception")
                    check(list(cap) == "".join(mine).splitlines(), "captured-text-differs", list(cap), " ", mine)
                    raise
            check(sys.stdout is before, "stream-not-restored")
            check(isinstance(cap, list) and list(cap) == "".join(mine).splitlines(), "captured-text-differs", list(cap), " expected ", mine)
            outcome(tuple(cap))


@job("capture", shards=4)
def capture():
    out, sys.stdout = sys.stdout, io.StringIO()
    top = sys.stdout
    expect = []
    try:
        try:
            program(tier(2, 3), 3, expect, out)
        except Boom:
            pass
        check(sys.stdout is top, "stream-not-restored-at-the-end")
        text = top.getvalue()
    finally:
        sys.stdout = out
    check(text == "".join(expect), "outer-text-differs", repr(text), " expected ", expect)
    state((text, tuple(E.path[:E.pos])))
    sample(expect)


@job("capture_again")
def again():
    """one object used several times collects all lines; the stream may have been replaced in between"""
    out = sys.stdout
    c = capture_stdout()
    lines = []
    try:
        for k in range(3):
            sys.stdout = top = io.StringIO()
            t = pick(TEXTS)
            try:
                with c as d:
                    check(d is c, "enter-returns-another-object")
                    sys.stdout.write(t)
                    if flip():
                        sys.stdout = io.StringIO()
                    if flip():
                        raise Boom()
            except Boom:
                pass
            check(sys.stdout is top, "stream-not-restored")
            lines += t.splitlines()
            check(list(c) == lines, "captured-lines-of-a-reused-object", list(c), lines)
    finally:
        sys.stdout = out
    state(tuple(lines))


# ------------------------------------------------------------------ redirect
class Baton:
    """the redirection thread stops before each of its calls to os and time; the main thread grants its steps"""
    def __init__(self):
        self.grant, self.at = threading.Semaphore(0), threading.Semaphore(0)
        self.free, self.waiting = False, False
        self.main = threading.current_thread()
        self.lock = threading.Lock()

    def point(self):
        if threading.current_thread() is self.main:
            return
        with self.lock:
            if self.free:
                return
            self.waiting = True
        self.at.release()
        self.grant.acquire()

    def step(self):
        """let the thread do one step, wait until it stops again; False if there is no waiting thread"""
        if not self.at.acquire(timeout=5):
            return False
        self.waiting = False
        self.grant.release()
        return True

    def release(self):
        with self.lock:
            self.free = True
        self.grant.release()


class Proxy:
    def __init__(self, mod, b, names):
        self._m, self._b, self._n = mod, b, names

    def __getattr__(self, k):
        v = getattr(self._m, k)
        if k in self._n:
            b = self._b

            def f(*a, **kw):
                b.point()
                return v(*a, **kw)
            return f
        return v


PIECES = ["x", "line\n", "\u00e9\u4e2d", "y" * 300, "z\n" * 6000]


@job("redirect", shards=8)
def redirect():
    m = te.load_source("utility/redirect.py", {})
    plan = pick([[], *[[a] for a in range(4)], *[[a, b] for a, b in ((0, 1), (2, 3), (3, 2), (1, 0))]])
    if plan and flip():
        plan[-1] = len(PIECES) - 1
    keep = os.dup(1)
    tmp = os.open("orig", os.O_RDWR | os.O_CREAT | os.O_TRUNC)
    os.dup2(tmp, 1)
    target = io.StringIO()
    out, sys.stdout = sys.stdout, target
    me = os.fstat(1)
    nfd = len(os.listdir("/proc/self/fd"))
    grants = 0
    budget = [tier(1, 2)]
    try:
        for rnd in range(2 if flip() else 1):
            b = Baton()
            m.os = Proxy(os, b, {"read", "pipe", "dup2", "close", "dup"})
            m.time = types.SimpleNamespace(sleep=lambda s: b.point())
            sofar = target.getvalue()
            os.write(1, b"before\n")
            m.start_redirect()
            if flip():
                with te.quiet():
                    m.start_redirect()

            def let():
                # the thread runs 0, 1, 2, 3 or 7 of its steps here
                nonlocal grants
                n = [0, 1, 2, 3, 7][choose(5)] if budget[0] > 0 else 0
                if n:
                    budget[0] -= 1
                for _ in range(n):
                    check(b.step(), "redirection-thread-ended-early")
                    step()
                grants += n
            let()
            sent = ""
            for p in plan:
                data = PIECES[p].encode()
                if p == len(PIECES) - 1 or len(data) < 4 or not flip():
                    os.write(1, data)
                else:
                    os.write(1, data[:4])
                    let()
                    os.write(1, data[4:])
                sent += PIECES[p]
                let()
            b.release()
            m.stop_redirect()
            old = [t for t in threading.enumerate() if isinstance(t, m.T)]
            os.write(1, b"after\n")
            for t in old:
                t.join(20)
                if t.is_alive():
                    fail("redirection-thread-never-ends", plan)
            got = target.getvalue()[len(sofar):]
            check(got == sent, "redirected-text-differs", "got ", repr(got[:200]), " of length ", len(got), ", written ", repr(sent[:200]), " of length ", len(sent))
            now = os.fstat(1)
            check((now.st_ino, now.st_dev) == (me.st_ino, me.st_dev), "stdout-not-restored", plan)
            if flip():
                m.stop_redirect()
            os.lseek(tmp, 0, 0)
            text = os.read(tmp, 100000)
            check(text == b"before\nafter\n" * (rnd + 1), "text-outside-the-redirection", text[:200])
            state((tuple(plan), rnd, grants, tuple(E.path[:E.pos])))
            outcome((got, rnd))
        check(len(os.listdir("/proc/self/fd")) == nfd, "descriptors-leaked", os.listdir("/proc/self/fd"))
    finally:
        sys.stdout = out
        os.dup2(keep, 1)
        os.close(keep), os.close(tmp)


if __name__ == "__main__":
    main()
