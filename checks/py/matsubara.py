"""C45: Matsubara frequencies against the complex number they stand for"""
import cmath, copy, math, operator, pickle
import numpy as np
from pyex import *
import triqs_env as te
te.setup()
with te.quiet():
    from triqs.gf import MatsubaraFreq, MeshImFreq, MeshPoint


def val(n, beta, s):
    return 1j * math.pi * (2 * n + (1 if s == "Fermion" else 0)) / beta


def ok(a, b):
    return abs(complex(a) - b) <= 1e-12 * (1 + abs(b))


NUM = [0, 1, -2, 3, 0.5, -1.25, 1j, 2 - 3j, np.float64(1.5), np.complex128(1 + 1j), np.int64(4)]
OPS = {"+": operator.add, "-": operator.sub, "*": operator.mul, "/": operator.truediv}


def freq():
    n, beta, s = choose(9) - 4, pick([1., 10., 0.3]), pick(["Fermion", "Boson"])
    return MatsubaraFreq(n, beta, s), val(n, beta, s), s, n, beta


@job("single", shards=4)
def single():
    f, z, s, n, beta = freq()
    check(ok(complex(f), z) and ok(f.value, z) and ok(f.imag, z.imag) and f.real == 0 and ok(abs(f), abs(z)), "value", n, beta, s)
    g = -f
    check(ok(complex(g), -z) and g.statistic == s and isinstance(g, MatsubaraFreq), "negation", n, beta, s, " ", g)
    for x in NUM:
        for o, op in OPS.items():
            if not (o == "/" and x == 0):
                check(ok(op(f, x), op(z, x)), "with-number:" + o, f, o, x, " ", op(f, x))
            if not (o == "/" and z == 0):
                check(ok(op(x, f), op(x, z)), "number-with:" + o, x, o, f, " ", op(x, f))
        if z != 0 or (complex(x).imag == 0 and complex(x).real > 0):
            check(ok(f ** x, z ** x), "power", f, x)
        step(9)
    for p in (-2, -1, 0, 1, 2, 3, 0.5):
        if z != 0 or p > 0:
            check(ok(f ** p, z ** p), "power", f, " ", p)
    a = np.array([1., 2j])
    check(np.allclose(f * a, z * a), "array")
    check(str(n) in str(f) and str(beta) in str(f) and s in str(f), "text", str(f))
    h = pickle.loads(pickle.dumps(f))
    check(h.n == n and h.beta == beta and h.statistic == s and ok(complex(h), z), "pickled")
    state((n, beta, s))
    outcome(z)
    sample(f, " = ", complex(f))


@job("pairs", shards=8)
def pairs():
    f, z, s, n, beta = freq()
    g, y, t, m, b2 = freq()
    if beta != b2:
        check(raises(RuntimeError, operator.add, f, g) and raises(RuntimeError, operator.sub, f, g), "different-beta-accepted", f, g)
        return
    before = (f.n, f.beta, f.statistic, g.n, g.beta, g.statistic)
    for o, r in (("+", f + g), ("-", f - g)):
        w = z + y if o == "+" else z - y
        check(isinstance(r, MatsubaraFreq), "not-a-frequency", f, o, g)
        check(ok(complex(r), w), "sum-value", f, o, g, " gives ", r)
        check(r.statistic == ("Boson" if s == t else "Fermion") and r.beta == beta and int(r.n) == r.n, "sum-statistic", f, o, g, " gives ", r)
        k = r - g if o == "+" else r + g
        check(ok(complex(k), z) and k.statistic == s and k.n == n, "not-inverse", f, o, g)
    for a, b in ((f * g, z * y), (f - g, z - y)):
        check(ok(a, b), "product", f, g)
    if y != 0:
        check(ok(f / g, z / y), "quotient", f, g)
    check(before == (f.n, f.beta, f.statistic, g.n, g.beta, g.statistic), "operand-changed", f, g)
    state((n, m, beta, s, t))
    step(5)


@job("points")
def points():
    """the same arithmetic through the points of a mesh"""
    s, beta = pick(["Fermion", "Boson"]), pick([1., 10.])
    m = MeshImFreq(beta, s, 3)
    p = pick(list(m))
    q = pick(list(m) + NUM)
    z, y = complex(p.value), complex(q.value) if isinstance(q, MeshPoint) else q
    check(ok(complex(p), z) and ok(p.imag, z.imag) and p.real == 0, "point-value", p)
    check(ok(-p, -z), "point-negation")
    for o, op in OPS.items():
        if o == "/" and (y == 0):
            continue
        check(ok(op(p, q), op(z, y)), "point-arithmetic:" + o, p, o, q)
        if not (o == "/" and z == 0):
            check(ok(op(q, p), op(y, z)), "point-arithmetic:" + o, q, o, p)
    state((s, beta, z, complex(y)))


@job("real_points")
def real_points():
    """points with real values: integers, conversion and calls"""
    v = pick([0.5, -2., 3, 7.9])
    p = MeshPoint(1, 2, 3, v)
    check(float(p) == float(v) and int(p) == int(v) and complex(p) == complex(v), "point-conversion", v)
    w = pick([2, 0.25, MeshPoint(0, 0, 3, 4.)])
    y = w.value if isinstance(w, MeshPoint) else w
    for o, op in OPS.items():
        check(op(p, w) == op(v, y) and op(w, p) == op(y, v), "point-arithmetic:" + o, v, o, y)
    a = MeshPoint(0, 0, 3, np.array([1., 2., 3.]))
    check(a[1] == 2. and (a + a).tolist() == [2., 4., 6.] and (2 * a).tolist() == [2., 4., 6.], "vector-point")
    c = MeshPoint(0, 0, 3, lambda x, k=1: (x, k))
    check(c(2, k=3) == (2, 3), "callable-point")
    state((v, y))


if __name__ == "__main__":
    main()
