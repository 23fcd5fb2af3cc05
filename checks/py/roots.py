"""C41: dichotomy and bound_and_bisect on all small piecewise linear functions"""
import math
from pyex import *
import triqs_env as te
te.setup()
with te.quiet():
    from triqs.utility.dichotomy import dichotomy
    from triqs.utility.bound_and_bisect import bound_and_bisect, determine_bounds


class PL:
    """continuous, piecewise linear with knots at -1, 0, 2; outer pieces extended"""
    def __init__(self, slopes, shift, sign=1):
        self.s, self.shift, self.sign, self.n = slopes, shift, sign, 0

    def val(self, x):
        s0, s1, s2, s3 = self.s
        y = self.shift
        if x <= 0:
            y += s1 * max(x, -1) + (s0 * (x + 1) if x < -1 else 0)
        else:
            y += s2 * min(x, 2) + (s3 * (x - 2) if x > 2 else 0)
        return self.sign * y

    def __call__(self, x):
        self.n += 1
        if self.n > 20000:
            raise RuntimeError("too many evaluations")
        return self.val(x)


def slopes():
    return [pick([0.25, 1., 4.]) for _ in range(4)]


@job("dichotomy", shards=8)
def dicho():
    f = PL(slopes(), pick([0., -1.5]))
    x0 = pick([0., -1., 2.5, -3.25, 7.])
    y = pick([0., 1., -2., 10., f.val(x0), f.val(x0) + .1, f.val(x0) - 1.])
    prec = pick([1e-1, 1e-6, 0.5])
    delta = pick([1., -.3, 5.])
    for loops in (1000, pick([0, 1, 2, 4])):
        f.n = 0
        with te.quiet():
            x, v = dichotomy(f, x0, y, prec, delta, max_loops=loops, x_name="mu" if loops < 3 else "", y_name="n", verbosity=[1, 0, 3][loops % 3])
        n = f.n
        arg = "f=%s%+g x_init=%g y=%g precision=%g delta=%g loops=%d" % (f.s, f.shift, x0, y, prec, delta, loops)
        step(n)
        if x is None or v is None:
            check(x is None and v is None, "half-failed", arg)
            check(n > loops, "failed-before-running-out-of-loops", arg, " after ", n, " evaluations")
            check(loops < 1000, "did-not-converge", arg)
            outcome("failed")
        else:
            check(f.val(x) == v, "value-is-not-that-of-the-point", arg, " x=", x, " y=", v, " f(x)=", f.val(x))
            check(abs(f.val(x) - y) <= prec, "not-within-precision", arg, " x=", x, " f(x)=", f.val(x))
            check(n <= loops + 3, "more-loops-than-allowed", arg, " ", n)
            outcome((round(x, 3), n))
            sample(arg, " -> ", x, " in ", n, " evaluations")
        state((arg, x, n))


@job("dichotomy_exact")
def exact():
    """targets hit exactly, at a distance equal to the precision, and functions that jump over the target"""
    x0, delta = pick([0., 1., -4.]), pick([1., 2., 0.5])
    prec = pick([0.5, 1., 0.25, 0.])
    y = pick([0., 0.5, 1., 3., -2.])
    kind = pick(["integer", "identity", "step", "cube"])
    f = {"integer": lambda x: float(math.floor(x)), "identity": lambda x: x, "step": lambda x: -10. if x < 1.3 else 10., "cube": lambda x: x ** 3}[kind]
    calls = [0]

    def g(x):
        calls[0] += 1
        return f(x)
    L = pick([60, 5])
    with te.quiet():
        try:
            x, v = dichotomy(g, x0, y, prec, delta, max_loops=L)
        except ZeroDivisionError as e:
            fail("dichotomy-division-by-zero", kind, " x_init=", x0, " y=", y, " precision=", prec, " delta=", delta)
            return
    arg = "%s x_init=%g y=%g precision=%g delta=%g loops=%d" % (kind, x0, y, prec, delta, L)
    if x is None:
        check(calls[0] > L, "failed-before-running-out-of-loops", arg, " after ", calls[0], " evaluations")
        if kind == "identity" and L == 60:
            fail("did-not-converge", arg)
    else:
        check(f(x) == v and abs(v - y) <= prec, "not-within-precision", arg, " x=", x, " y=", v)
    step(calls[0])
    state((arg, x))
    outcome(x is None)


@job("bisect", shards=8)
def bisect():
    f = PL(slopes(), pick([0., -1.5]), pick([1, -1]))
    x0 = pick([0., -1., 2.5, 7.])
    y = pick([0., 1., -2., 6., f.val(x0), f.val(x0) + .1])
    dx = pick([1., -1., .3, 5.])
    xtol = pick([1e-3, 1e-6, .5])
    arg = "f=%+d*(%s%+g) x_0=%g y=%g dx=%g xtol=%g" % (f.sign, f.s, f.shift, x0, y, dx, xtol)
    with te.quiet():
        F = lambda x: f(x) - y
        a, b = determine_bounds(F, x0, dx, 1000)
        check(F(a) < 0 < F(b), "bounds-do-not-bracket", arg, " ", a, " ", b)
        f.n = 0
        x, v = bound_and_bisect(f, x0, y, dx, xtol=xtol, verbosity=flip())
    step(f.n)
    check(v == f.val(x), "bisect-value-is-not-that-of-the-point", arg)
    lo, up = f.val(x - 1.01 * xtol - 1e-12) - y, f.val(x + 1.01 * xtol + 1e-12) - y
    check(min(lo, up) <= 0 <= max(lo, up), "bisect-root-not-within-xtol", arg, " x=", x, " f(x)=", v)
    for maxiter in (1, 3):
        f.n = 0
        with te.quiet():
            try:
                x2, v2 = bound_and_bisect(f, x0, y, dx, xtol=xtol, maxiter=maxiter, verbosity=0)
                lo, up = f.val(x2 - 1.01 * xtol - 1e-12) - y, f.val(x2 + 1.01 * xtol + 1e-12) - y
                check(min(lo, up) <= 0 <= max(lo, up) and v2 == f.val(x2), "bisect-limited-iterations-wrong", arg, " maxiter=", maxiter, " x=", x2)
            except (ValueError, RuntimeError) as e:
                outcome(type(e).__name__)
        check(f.n <= 3 * maxiter + 12, "more-iterations-than-allowed", arg, " ", f.n)
    state((arg, x))
    sample(arg, " -> ", x)
    outcome(round(x, 3))


if __name__ == "__main__":
    main()
