"""C44: expressions over lazy placeholders: evaluation, transformation, printing; and their assignment to a Green's function"""
import operator
import numpy as np
from pyex import *
import triqs_env as te
te.setup()
with te.quiet():
    from triqs.gf import *
    from triqs.gf import lazy_expressions as lz, descriptors, descriptor_base


class X(lz.LazyExprTerminal):
    """a placeholder"""
    def __init__(self, name):
        self.name = name

    def __str__(self):
        return self.name
    __repr__ = __str__


class W:
    """non commutative, non associative values: words that remember the operations"""
    def __init__(self, t):
        self.t = t

    def __eq__(self, o):
        return self.t == o.t

    def __repr__(self):
        return repr(self.t)


def _w(o):
    def f(a, b):
        return W((o, a.t if isinstance(a, W) else a, b.t if isinstance(b, W) else b))

    def r(a, b):
        return f(b, a)
    return f, r


for _n, _o in (("add", "+"), ("sub", "-"), ("mul", "*"), ("truediv", "/")):
    _a, _b = _w(_o)
    setattr(W, "__%s__" % _n, _a)
    setattr(W, "__r%s__" % _n, _b)

OPS = {"+": operator.add, "-": operator.sub, "*": operator.mul, "/": operator.truediv}
A, B = X("A"), X("B")
fn2 = lz.lazy_function("fn", lambda *a: W(("fn",) + tuple(x.t if isinstance(x, W) else x for x in a)))
fn2_py = lambda *a: W(("fn",) + tuple(x.t if isinstance(x, W) else x for x in a))


def lazy(x):
    return isinstance(x, (lz.LazyExpr, lz.LazyExprTerminal))


def tree(depth):
    """(expression, direct value for A='a' and B='b', text that evaluates to the same)"""
    k = choose(6 if depth else 3)
    if k == 0:
        return A, W("a")
    if k == 1:
        return B, W("b")
    if k == 2:
        return 2, 2
    if k < 5:
        o = pick("+-*/")
        l, lv = tree(depth - 1)
        r, rv = tree(depth - 1)
        if not lazy(l) and not lazy(r):
            raise Prune()
        if k == 4:
            # the in-place form on a copy
            if not isinstance(l, lz.LazyExpr):
                raise Prune()
            c = l.copy()
            keep = str(l.tag), len(l.childs)
            iop = {"+": operator.iadd, "-": operator.isub, "*": operator.imul, "/": operator.itruediv}[o]
            d = iop(c, r)
            check(d is c and (l.tag, len(l.childs)) == keep, "in-place-changed-the-original", l, o, r)
            return d, OPS[o](lv, rv)
        return OPS[o](l, r), OPS[o](lv, rv)
    n = choose(3)
    args = [tree(depth - 1) for _ in range(n)]
    return fn2(*[a for a, _ in args]), fn2_py(*[v for _, v in args])


def ev(e, env):
    return lz.eval_expr_with_context(lambda t: env[t.name] if isinstance(t, X) else t, e if isinstance(e, lz.LazyExpr) else lz.LazyExpr(e))


def size(v):
    return 1 + sum(size(x) for x in v[1:] if isinstance(x, tuple)) if isinstance(v, tuple) else 1


@job("eval", shards=8)
def evaluate():
    e, v = tree(tier(2, 3))
    if not lazy(e):
        raise Prune()
    env = {"A": W("a"), "B": W("b")}
    r = ev(e, env)
    check(r == v, "evaluation-differs", e.__class__, ": ", r, " expected ", v)
    E_ = lz.LazyExpr(e)
    # all terminals, in order
    terms = [t for t in lz.all_terminals(E_) if isinstance(t, X)]
    want = [x for x in flat(v.t) if x in ("a", "b")]
    check([t.name.lower() for t in terms] == want, "terminals", terms, want)
    check(E_.is_terminal() == isinstance(v.t, str) and (E_.get_terminal() is None) == (not isinstance(v.t, str)), "is-terminal")
    # identity transformation, and renaming of the terminals
    seen = []

    def node(tag, ch):
        seen.append(tag)
        return tag, ch
    r2 = ev(lz.transform(E_, node), env)
    check(r2 == v, "identity-transformation-changes-value", r2, " expected ", v)
    check(sorted(seen) == sorted("F" if x == "fn" else x for x in ops(v.t)), "transformation-does-not-visit-every-node", seen, " of ", v)
    swap = lambda x: (B if x is A else A if x is B else x)
    r3 = ev(lz.transform(E_, lambda t, c: (t, c), swap), env)
    check(r3 == ev(E_, {"A": W("b"), "B": W("a")}), "term-transformation-incomplete", r3, " from ", v)
    flipop = {"+": "-", "-": "+", "*": "/", "/": "*", "F": "F"}
    r4 = ev(lz.transform(E_, lambda t, c: (flipop[t], c)), env)
    check(r4.t == refl(v.t, flipop), "node-transformation", r4, " from ", v)
    check(ev(E_, env) == v, "expression-changed-by-evaluation")
    # printing: the text, read with the usual precedences, is the same expression
    for text in (str(E_), repr(E_)):
        try:
            p = eval(text, {"A": W("a"), "B": W("b"), "fn": fn2_py})
        except Exception as x:
            fail("printed-text-not-an-expression", repr(text), " ", repr(x))
            break
        check(isinstance(p, W) and p == v, "printed-text-differs", repr(text), " means ", p, " expression is ", v)
    state(v.t)
    outcome(str(E_))
    sample(E_, " = ", v)


def flat(t):
    if isinstance(t, tuple):
        for x in t[1:]:
            yield from flat(x)
    else:
        yield t


def ops(t):
    if isinstance(t, tuple):
        yield t[0]
        for x in t[1:]:
            yield from ops(x)


def refl(t, f):
    if isinstance(t, tuple):
        return (f.get(t[0], t[0]),) + tuple(refl(x, f) for x in t[1:])
    return t


@job("context")
def context():
    """eval_expr finds the context from the terminals, refuses incompatible or abstract ones"""
    class Ctx:
        def __init__(self, k, env):
            self.k, self.env = k, env

        def __eq__(self, o):
            return isinstance(o, Ctx) and self.k == o.k

        def __call__(self, t):
            return self.env.get(t.name, t) if isinstance(t, X) else t.v if isinstance(t, T) else t

    class T(lz.LazyExprTerminal):
        def __init__(self, k, v):
            self.k, self.v = k, v

        def __lazy_expr_eval_context__(self):
            return Ctx(self.k, {"A": 3., "B": 5.})
    terms = [pick([A, B, 2., "t1", "t1b", "t2"]) for _ in range(3)]
    mk = {"t1": T(1, 7.), "t1b": T(1, 11.), "t2": T(2, 13.)}
    vals = [{"t1": 7., "t1b": 11., "t2": 13.}.get(t, t) if not isinstance(t, X) else {"A": 3., "B": 5.}[t.name] for t in terms]
    o1, o2 = pick("+-*/"), pick("+-*/")
    objs = [mk.get(t, t) if isinstance(t, str) else t for t in terms]
    if not lazy(objs[0]) and not lazy(objs[1]):
        raise Prune()
    e = OPS[o2](OPS[o1](objs[0], objs[1]), objs[2])
    kinds = {t[:2] for t in terms if isinstance(t, str)}
    if len(kinds) != 1:
        check(raises(ValueError, lz.eval_expr, e), "abstract-or-incompatible-accepted", terms)
    else:
        r = lz.eval_expr(e)
        check(r == OPS[o2](OPS[o1](vals[0], vals[1]), vals[2]), "context-value", terms, o1, o2, r)
    for x in (3, "s", None, A):
        check(lz.eval_expr(x) is x, "non-expression-changed", x)
    state((str(terms), o1, o2))


# ------------------------------------------------------------------------------- on Green's functions
def fresh(kind):
    mesh = {"im": MeshImFreq(10., "Fermion", 2), "re": MeshReFreq(-1.5, 1.5, 4)}[kind[:2]]
    shape = {"s": [], "m": [2, 2]}[kind[2]]
    rng = np.random.RandomState(5)
    g, h = Gf(mesh=mesh, target_shape=shape), Gf(mesh=mesh.copy(), target_shape=shape)
    for x in (g, h):
        x.data[...] = rng.rand(*x.data.shape) + 1j * rng.rand(*x.data.shape) + (np.eye(2) if shape else 1)
    return g, h


def gtree(depth, g, h, k=None):
    """(expression, data it stands for): sums, products of lazies, Green's functions, numbers and matrices; numbers in sums stand for multiples of one"""
    k = choose(7 if depth else 5) if k is None else k
    mat = g.target_rank == 2
    one = np.eye(2) if mat else 1.
    full = lambda c: np.broadcast_to(c * one, g.data.shape)
    if k == 0:
        return iOmega_n, np.array([complex(w.value) * one for w in g.mesh]), "lazy"
    if k == 1:
        return SemiCircular(1.3), semicirc(g, 1.3), "lazy"
    if k == 2:
        return h, h.data.copy(), "gf"
    if k == 3:
        c = pick([2, 1.5 - 1j])
        return c, c, "number"
    if k == 4:
        return Flat(0.7), flatdos(g, .7), "lazy"
    if k == 5:
        o = pick("+-*")
        l, lv, lt = gtree(depth - 1, g, h)
        r, rv, rt = gtree(depth - 1, g, h)
        if "lazy" not in (lt, rt):
            raise Prune()
        if lt == "gf" and rt == "lazy" and o == "*":
            raise Prune()  # refused by Gf.__mul__
        e = OPS[o](l, r)
        if o in "+-":
            v = OPS[o](full(lv) if lt == "number" else lv, full(rv) if rt == "number" else rv)
        elif "number" in (lt, rt):
            v = lv * rv
        else:
            v = np.matmul(lv, rv) if mat else lv * rv
        return e, v, "lazy"
    f = choose(4)
    e, v, t = gtree(depth - 1, g, h)
    if t != "lazy":
        raise Prune()
    if f == 0:
        return inverse(e), (np.linalg.inv(v) if mat else 1 / v), "lazy"
    if f == 1:
        return conjugate(e), np.conj(v), "lazy"
    if f == 2:
        if not mat:
            raise Prune()
        return transpose(e), np.swapaxes(v, 1, 2), "lazy"
    return e / (2 - 1j), v / (2 - 1j), "lazy"


def semicirc(g, D):
    one = np.eye(2) if g.target_rank == 2 else 1.
    out = []
    for w in g.mesh:
        z = complex(w.value)
        if type(g.mesh) is MeshImFreq:
            s = np.sqrt(D * D - z * z + 0j)
            v = 2 / D**2 * (z - 1j * np.sign(z.imag) * s)
        else:
            x = z.real
            v = 2 / D**2 * (x - 1j * np.sqrt(D * D - x * x)) if abs(x) < D else 2 / D**2 * (x - np.sign(x) * np.sqrt(x * x - D * D))
        out.append(v * one)
    return np.array(out)


def flatdos(g, D):
    one = np.eye(2) if g.target_rank == 2 else 1.
    out = []
    for w in g.mesh:
        z = complex(w.value)
        if type(g.mesh) is MeshImFreq:
            v = -1 / (2 * D) * np.log((z - D) / (z + D))
        else:
            v = -np.log(abs((z - D) / (z + D))) / (2 * D) - (1j * np.pi / (2 * D) if abs(z.real) < D else 0)
        out.append(v * one)
    return np.array(out)


@job("assign", shards=8)
def assign():
    """g << expression fills every point with the value of the expression"""
    k = choose(28)
    kind = ["ims", "imm", "res", "rem"][k % 4]
    g, h = fresh(kind)
    try:
        with np.errstate(all="ignore"):
            e, v, t = gtree(2, g, h, k // 4)
    except np.linalg.LinAlgError:
        raise Prune()
    if not np.all(np.isfinite(v)) or np.max(np.abs(v)) > 1e4:
        raise Prune()  # the inverse of zero
    if t == "gf" or (t == "number"):
        v = np.broadcast_to(v * (np.eye(2) if g.target_rank == 2 else 1.), g.data.shape) if t == "number" else v
    hd, gd = h.data.copy(), g.data
    with te.quiet():
        r = g.__lshift__(e)
    check(r is g and g.data is gd, "assignment-replaces-the-data")
    check(near(g.data, np.asarray(v), 1e-9), "assigned-value-differs", kind, " ", text(e), ": ", g.data[0].tolist(), " expected ", np.asarray(v)[0].tolist())
    check((h.data == hd).all(), "operand-changed", text(e))
    # again, through g[...] = and into a view
    g2, _ = fresh(kind)
    with te.quiet():
        g2[:] = e
    check(near(g2.data, g.data, 1e-12), "slice-assignment-differs", text(e))
    state((kind, text(e)))
    sample(kind, " ", text(e))
    # self reference: g << e(g)
    g3, _ = fresh(kind)
    d3 = g3.data.copy()
    if t == "lazy":
        with te.quiet():
            g3 << e + g3
        check(near(g3.data, np.asarray(v) + d3, 1e-9), "self-reference", text(e))


def text(e):
    with te.quiet():
        try:
            return str(e)[:80].replace("\n", " ")
        except Exception as x:
            return repr(type(e))


if __name__ == "__main__":
    main()
