"""C52: the Python Green's function object: access, views, arithmetic, assignment, write and read"""
import itertools, pickle, numbers
import numpy as np
from pyex import *
import triqs_env as te
te.setup()
with te.quiet():
    from triqs.gf import *
    from triqs.gf.gf import Gf
    from triqs.plot.protocol import clip_array

MESH = {
    "im": lambda n=2, b=5.: MeshImFreq(b, "Fermion", n),
    "imB": lambda n=2, b=5.: MeshImFreq(b, "Boson", n),
    "re": lambda n=4, b=1.: MeshReFreq(-b, b, n),
    "tau": lambda n=4, b=5.: MeshImTime(b, "Fermion", n),
    "tauB": lambda n=4, b=5.: MeshImTime(b, "Boson", n),
    "t": lambda n=4, b=2.: MeshReTime(0., b, n),
    "leg": lambda n=4, b=5.: MeshLegendre(b, "Fermion", n),
    "im_im": lambda n=2, b=5.: MeshProduct(MeshImFreq(b, "Fermion", n), MeshImFreq(b, "Boson", 2)),
    "re_tau": lambda n=2, b=5.: MeshProduct(MeshReFreq(-1., 1., n), MeshImTime(b, "Fermion", 3)),
    "3": lambda n=2, b=5.: MeshProduct(MeshImFreq(b, "Fermion", n), MeshImTime(b, "Boson", 3), MeshReFreq(-1., 1., 2)),
}
SH = {"s": [], "1": [1, 1], "2": [2, 2], "23": [2, 3], "32": [3, 2], "v": [2], "t": [2, 2, 2]}


def mk(mesh, shape, seed=0, real=False, **kw):
    g = Gf(mesh=MESH[mesh](**kw), target_shape=SH[shape], is_real=real, name="g%d" % seed)
    d = np.arange(g.data.size).reshape(g.data.shape) + 100 * seed
    g.data[...] = np.cos(1.7 * d + .2) + (0 if real else 1j * np.sin(2.3 * d + .1))
    if shape in "12":
        g.data[...] += 3 * np.eye(g.target_shape[0])
    return g


def rank(mesh):
    return {"im_im": 2, "re_tau": 2, "3": 3}.get(mesh, 1)


def pts(d, r):
    return itertools.product(*[range(n) for n in d.shape[:r]])


def pointwise(f, r, *ds):
    ix = list(pts(ds[0], r))
    first = np.asarray(f(*[d[ix[0]] for d in ds]))
    out = np.empty(ds[0].shape[:r] + first.shape, dtype=complex)
    for i in ix:
        out[i] = f(*[d[i] for d in ds])
    return out


def mm(a, b):
    a, b = np.asarray(a), np.asarray(b)
    if a.ndim == 0 or b.ndim == 0:
        return a * b
    return np.array([[sum(a[i, k] * b[k, j] for k in range(a.shape[1])) for j in range(b.shape[1])] for i in range(a.shape[0])])


NUM = [2, -.5, 1 - 2j, np.float64(.25), np.complex128(1j), np.int64(3), 1, True]


@job("numbers", shards=7)
def numbers_():
    """numbers of every type on either side"""
    k = choose(len(SH) * len(MESH))
    shape, mesh = sorted(SH)[k % len(SH)], sorted(MESH)[k // len(SH)]
    op = pick(["+", "-", "*", "/", "r+", "r-", "r*", "+=", "-=", "*=", "/=", "neg"])
    y = pick(NUM)
    mat = shape in ("1", "2", "23", "32")
    if mat and op.strip("r=") in "+-" and mesh not in ("im", "imB", "re"):
        raise Prune()  # compiled for these two only
    if shape in ("23", "32") and op.strip("r=") in "+-":
        raise Prune()
    if y is True and op != "*":
        raise Prune()
    g = mk(mesh, shape)
    r, d, data = rank(mesh), g.data.copy(), g.data
    one = (lambda x: np.eye(len(x))) if mat else (lambda x: 1.)
    f = {"+": lambda x: x + y * one(x), "-": lambda x: x - y * one(x), "*": lambda x: x * y, "/": lambda x: x / y, "r+": lambda x: y * one(x) + x, "r-": lambda x: y * one(x) - x,
         "r*": lambda x: y * x, "neg": lambda x: -x}[op.strip("=")]
    with te.quiet():
        h = {"+": lambda: g + y, "-": lambda: g - y, "*": lambda: g * y, "/": lambda: g / y, "r+": lambda: y + g, "r-": lambda: y - g, "r*": lambda: y * g, "neg": lambda: -g,
             "+=": lambda: g.__iadd__(y), "-=": lambda: g.__isub__(y), "*=": lambda: g.__imul__(y), "/=": lambda: g.__itruediv__(y)}[op]()
    check(isinstance(h, Gf), "result-type", op, type(y), type(h))
    check(near(h.data, pointwise(f, r, d), 1e-12) and h.data.shape == d.shape, "number-arithmetic", mesh, shape, op, y, h.data.reshape(-1)[:3], " expected ", pointwise(f, r, d).reshape(-1)[:3])
    check(h.mesh == MESH[mesh](), "result-mesh", op)
    if op[-1] == "=":
        check(h is g and g.data is data, "in-place-replaced-data", op)
    else:
        check((g.data == d).all() and not np.shares_memory(h.data, data), "operand-changed-or-aliased", op)
    state((mesh, shape, op, repr(y)))
    sample(mesh, shape, op, y)


@job("pairs", shards=8)
def pairs():
    """two functions: sums and matrix products at every point; refusals"""
    k = choose(len(SH) * len(SH))
    s1, s2 = sorted(SH)[k % len(SH)], sorted(SH)[k // len(SH)]
    m1 = pick(sorted(MESH))
    m2 = pick([m1, m1 + "/size", m1 + "/beta", "im", "re", "im_im", "tauB", "tau"])
    op = pick(["+", "-", "*", "@", "+=", "-=", "*=", "@=", "<<", "[:]"])
    a = mk(m1, s1, 1)
    if m2.endswith("/size"):
        b = mk(m1, s2, 2, n=3)
    elif m2.endswith("/beta"):
        b = mk(m1, s2, 2, b=6.)
    else:
        b = mk(m2, s2, 2)
    if m2 != m1 and b.mesh == a.mesh:
        raise Prune()
    if op in ("@", "@="):
        op2 = op.replace("@", "*")
    else:
        op2 = op
    same_mesh = a.mesh == b.mesh
    if op2 == "*" and {m1, m2} == {"tau", "tauB"}:
        same_mesh = True
    n1, n2 = len(SH[s1]), len(SH[s2])
    da, db, r, pa = a.data.copy(), b.data.copy(), rank(m1), a.data
    if op2 in ("+", "-", "+=", "-=", "<<", "[:]"):
        okay = same_mesh and s1 == s2
    elif op2 == "*":
        okay = same_mesh and n1 in (0, 2) and n2 in (0, 2) and (n1 + n2 < 4 or SH[s1][1] == SH[s2][0])
    else:
        okay = same_mesh and (n1, n2) in ((2, 2), (2, 0), (0, 0)) and (n1 + n2 < 4 or SH[s1][1] == SH[s2][0] == SH[s2][1])

    def run():
        x = a
        with te.quiet():
            if op == "+": return a + b
            if op == "-": return a - b
            if op == "*": return a * b
            if op == "@": return a @ b
            if op == "+=": x += b
            elif op == "-=": x -= b
            elif op == "*=": x *= b
            elif op == "@=": x @= b
            elif op == "<<": x << b
            else: x[:] = b
        return x
    if not okay:
        if not same_mesh and n1 == n2 == 0 and op2 == "*=" and False:
            raise Prune()
        check(raises((AssertionError, ValueError, TypeError, RuntimeError, NotImplementedError, IndexError), run), "mismatch-accepted", op, m1, s1, m2, s2)
        check((a.data == da).all() and (b.data == db).all() and a.mesh == MESH[m1](), "changed-by-refused-operation", op, m1, s1, m2, s2)
        state(("no", op, m1, s1, m2, s2))
        return
    h = run()
    f = {"+": lambda x, y: x + y, "-": lambda x, y: x - y, "*": mm, "<": lambda x, y: y, "[": lambda x, y: y}[op2[0]]
    w = pointwise(f, r, da, db)
    check(h.data.shape == w.shape and near(h.data, w, 1e-12), "pair-arithmetic", op, m1, s1, s2, h.data.reshape(-1)[:3], " expected ", w.reshape(-1)[:3])
    check(h.target_shape == w.shape[r:] and h.target_rank == w.ndim - r and h.rank == r, "result-shape")
    if op2 == "*" and "tau" in m1 and m1 in ("tau", "tauB"):
        check(type(h.mesh) is MeshImTime and h.mesh.beta == 5. and len(h.mesh) == 4 and h.mesh.statistic == ("Boson" if m1 == m2 else "Fermion"), "imtime-product-statistic", m1, m2, h.mesh)
    elif "tau" not in m1 and m1 != "3":
        check(h.mesh == MESH[m1](), "result-mesh", op, m1)
    if op[-1] in "=<]":
        check(h is a and a.data is pa, "in-place-replaced-data", op)
        check((b.data == db).all() and not np.shares_memory(a.data, b.data), "right-operand-changed-or-aliased", op)
    else:
        check((a.data == da).all() and (b.data == db).all() and not np.shares_memory(h.data, a.data) and not np.shares_memory(h.data, b.data), "operand-changed-or-aliased", op)
        check(h.mesh is not a.mesh and h.mesh is not b.mesh, "result-shares-mesh", op)
    state((op, m1, s1, m2, s2))


@job("matrices")
def matrices():
    shape, mesh = pick(["2", "23", "32", "1", "s", "v"]), pick(["im", "re", "im_im", "tau"])
    side, op = pick(["l", "r"]), pick(["*", "*=", "+", "-", "+=", "-=", "r-"])
    mshape = pick([(2, 2), (2, 3), (3, 2), (3, 3), (1, 1), (2,)])
    g = mk(mesh, shape)
    d, r = g.data.copy(), rank(mesh)
    m = np.cos(np.arange(int(np.prod(mshape))).reshape(mshape) * 1.9) + (.5j if flip() else 0)
    sh = SH[shape]
    if op[0] in "+-r":
        if op == "r-" and side == "r" or op[-1] == "=" and side == "l" or mesh not in ("im", "re"):
            raise Prune()
        if len(sh) != 2:
            raise Prune()
        okay = tuple(sh) == mshape
        f = {"+": lambda x: x + m, "-": lambda x: x - m, "r": lambda x: m - x}[op[0]]
        if side == "l" and op == "-":
            f = lambda x: m - x
    else:
        if op == "*=" and side == "l" or op == "*" and len(mshape) == 1 and len(sh) == 2 and False:
            raise Prune()
        okay = len(sh) == 2 and len(mshape) == 2 and (sh[1] == mshape[0] if side == "r" else mshape[1] == sh[0])
        if op == "*=" and okay:
            okay = sh[1] == mshape[1]
        if side == "r" and okay and mshape[0] != mshape[1]:
            raise Prune()  # goes through a copy of g, so only square matrices
        if side == "l" and okay and mshape[0] != mshape[1]:
            raise Prune()
        f = (lambda x: mm(x, m)) if side == "r" else (lambda x: mm(m, x))

    def run():
        x = g
        with te.quiet():
            if op == "*": return g * m if side == "r" else m * g
            if op == "+": return g + m if side == "r" else m + g
            if op == "-": return g - m if side == "r" else m - g
            if op == "r-": return m - g
            if op == "*=": x *= m
            elif op == "+=": x += m
            else: x -= m
        return x
    if not okay:
        check(raises((AssertionError, ValueError, TypeError, RuntimeError, IndexError), run), "matrix-mismatch-accepted", op, side, sh, mshape)
        check((g.data == d).all(), "changed-by-refused-operation", op)
        return
    h = run()
    check(near(h.data, pointwise(f, r, d), 1e-12), "matrix-arithmetic", mesh, shape, side, op, h.data.reshape(-1)[:3], pointwise(f, r, d).reshape(-1)[:3])
    if op[-1] != "=":
        check((g.data == d).all(), "operand-changed", op)
    state((mesh, shape, side, op, mshape))


@job("access", shards=5)
def access():
    """mesh points, Idx, slices of target and mesh: values, views and writes"""
    k = choose(len(MESH) * len(SH))
    mesh, shape = sorted(MESH)[k // len(SH)], sorted(SH)[k % len(SH)]
    g = mk(mesh, shape)
    d, r = g.data.copy(), rank(mesh)
    M = g.mesh
    comps = list(M.components) if r > 1 else [M]
    points = list(M)
    check(len(points) == len(M) == int(np.prod(d.shape[:r])) and [tuple(p.data_index for p in (P if r > 1 else [P])) for P in points] == list(pts(d, r)), "mesh-iteration")
    for P, ix in zip(points, pts(d, r)):
        idx = tuple(p.index for p in (P if r > 1 else [P]))
        check(np.array_equal(g[P], d[ix]), "mesh-point-access", ix)
        I = tuple(Idx(int(i)) for i in idx)
        check(np.array_equal(g[I if r > 1 else I[0]], d[ix]), "idx-access", idx)
        if r > 1:
            check(np.array_equal(g[Idx(*[int(i) for i in idx])], d[ix]), "multi-idx-access", idx)
            check(np.array_equal(g[(P[0],) + I[1:]], d[ix]) and np.array_equal(g[I[:1] + tuple(P[1:])], d[ix]), "mixed-access")
            check(M.to_data_index([int(i) for i in idx]) == ix, "product-data-index")
        v = np.cos(np.arange(int(np.prod(d.shape[r:], dtype=int))).reshape(d.shape[r:]) + .1) * (1 + .3j)
        which = choose(2) if ix == tuple([0] * r) or ix == tuple(n - 1 for n in d.shape[:r]) else 0
        if which:
            g[P] = v
        else:
            g[I if r > 1 else I[0]] = v
        d[ix] = v
        check(np.array_equal(g.data, d), "write-at-point", ix)
    # target slices alias
    n = len(SH[shape])
    if n:
        key = tuple(pick([slice(None), slice(0, 1), slice(1, 2), slice(0, 1, None), -1 if False else slice(None, None, -1)]) if s > 1 else slice(None) for s in SH[shape][:2]) + (slice(None),) * (n - 2) if flip() else tuple(choose(s) for s in SH[shape])
        full = (slice(None),) * r + key
        if all(k == slice(None) for k in key) and n == 1:
            raise Prune()
        s = g[key if n > 1 else key[0]]
        check(isinstance(s, Gf) and s.data.shape == d[full].shape and np.array_equal(s.data, d[full]) and s.mesh == g.mesh and s.target_shape == d[full].shape[r:], "target-slice", key)
        check(np.shares_memory(s.data, g.data), "target-slice-is-a-copy", key)
        s.data[...] *= 2
        d[full] *= 2
        check(np.array_equal(g.data, d), "target-slice-write", key)
        x = Gf(mesh=g.mesh.copy(), data=np.ascontiguousarray(d[full]) + 1)
        if not all(k == slice(None) for k in key):
            g[key if n > 1 else key[0]] = x
            d[full] = x.data
            check(np.array_equal(g.data, d), "target-slice-assign", key)
        check(raises((AssertionError, TypeError), lambda: g[(0,) * (n + 1)]), "wrong-number-of-indices")
        check(raises(RuntimeError, lambda: g[("up",) * n]), "string-index-accepted")
    if r > 1:
        # fix some of the variables
        fixed = subset(range(r))
        if not fixed or len(fixed) == r:
            raise Prune()
        ix = {i: pick([0, len(comps[i]) - 1]) for i in fixed}
        key = tuple((comps[i][ix[i]] if flip() else Idx(int(comps[i][ix[i]].index))) if i in ix else slice(None) for i in range(r))
        s = g[key]
        full = tuple(ix.get(i, slice(None)) for i in range(r))
        rest = [comps[i] for i in range(r) if i not in ix]
        check(np.array_equal(s.data, d[full]) and (s.mesh == rest[0] if len(rest) == 1 else list(s.mesh.components) == rest) and s.rank == len(rest), "partial-evaluation", fixed)
        check(np.shares_memory(s.data, g.data), "partial-evaluation-is-a-copy")
        s.data[...] += 1
        d[full] += 1
        check(np.array_equal(g.data, d), "partial-evaluation-write")
        y = Gf(mesh=s.mesh.copy(), data=s.data * 3)
        g[key] = y
        d[full] *= 3
        check(np.array_equal(g.data, d), "partial-assign")
        check(raises((AssertionError, TypeError), lambda: g[key + (slice(None),)]), "wrong-number-of-arguments")
        check(raises(NotImplementedError, lambda: g[tuple(slice(0, 1) if isinstance(x, slice) else x for x in key)]), "partial-mesh-slice-accepted")
        bad = MESH[mesh](b=9.)
        if bad.components[0] != comps[0]:
            check(raises(AssertionError, lambda: g[tuple(c[0] for c in bad.components)]), "foreign-mesh-point-accepted")
    else:
        other = MESH[mesh](b=9.)
        check(raises(AssertionError, lambda: g[other[0]]) and raises(AssertionError, lambda: g.__setitem__(other[0], 0)), "foreign-mesh-point-accepted", mesh)
        check(np.array_equal(g.data, d), "changed-by-refused-access")
    check(g[:] is g, "full-slice")
    state((mesh, shape, len(E.path)))


@job("objects", shards=4)
def objects():
    """construction, copy, write and read, parts, x data"""
    k = choose(len(MESH) * len(SH))
    mesh, shape = sorted(MESH)[k // len(SH)], sorted(SH)[k % len(SH)]
    real = flip()
    g = mk(mesh, shape, real=real)
    d, r = g.data.copy(), rank(mesh)
    check(d.dtype == (np.float64 if real else np.complex128) and g.rank == r and g.target_rank == len(SH[shape]) and g.target_shape == tuple(SH[shape]), "constructed")
    check(list(g.target_indices) == list(itertools.product(*[range(i) for i in SH[shape]])), "target-indices")
    with te.quiet():
        for x in (pickle.loads(pickle.dumps(g)), Gf.__factory_from_dict__("g0", dict(g.__reduce_to_dict__()))):
            check(np.array_equal(x.data, d) and x.data.dtype == d.dtype and x.mesh == g.mesh and x.name == g.name and x.target_shape == g.target_shape, "read-back", mesh, shape)
    c = g.copy()
    check(np.array_equal(c.data, d) and c.mesh == g.mesh and c.mesh is not g.mesh and c.name == g.name and not np.shares_memory(c.data, g.data), "copy")
    c.data[...] = 0
    check(np.array_equal(g.data, d), "copy-not-independent")
    o = mk(mesh, shape, 5, real=real, b=7.)
    om = o.mesh.copy()
    c.copy_from(o)
    check(np.array_equal(c.data, o.data) and c.mesh == om and not np.shares_memory(c.data, o.data) and c.mesh is not o.mesh and g.mesh == MESH[mesh](), "copy-from")
    sm = c.mesh.copy()
    for bad in (mk(mesh, shape, 5, real=real, n=3), mk(mesh, "1" if shape != "1" else "2", 5)):
        if bad.data.shape == c.data.shape:
            continue
        check(raises((AssertionError, TypeError), c.copy_from, bad), "copy-from-accepted")
        check(c.mesh == om and np.array_equal(c.data, o.data), "changed-by-refused-copy", mesh, shape)
    re, im = g.real, g.imag
    check(np.array_equal(re.data, d.real) and np.array_equal(im.data, d.imag) and re.mesh == g.mesh and im.mesh == g.mesh, "parts")
    if not real:
        re.data[...] = 7
        check(np.array_equal(g.data, 7 + 1j * d.imag), "real-part-is-not-a-view")
        g.data[...] = d
    w = Gf(mesh=g.mesh, data=g.data)
    check(w.data is g.data, "constructor-copied-data")
    if shape in ("2", "23", "32", "1") and r == 1:
        t = g.transpose()
        check(np.array_equal(t.data, np.array([x.T for x in d])) and not np.shares_memory(t.data, g.data) and t.target_shape == tuple(reversed(g.target_shape)), "transpose", shape)
    cj = g.conjugate()
    check(np.array_equal(cj.data, d.conj()) and not np.shares_memory(cj.data, g.data), "conjugate")
    if not real and shape in ("1", "2", "s"):
        i = g.inverse()
        wi = pointwise(lambda x: np.linalg.inv(x) if x.ndim else 1 / x, r, d)
        check(near(i.data, wi, 1e-9) and np.array_equal(g.data, d), "inverse", mesh, shape)
        x = g.copy()
        dat = x.data
        x.invert()
        check(near(x.data, wi, 1e-9) and x.data is dat, "invert")
    elif shape in ("v", "t"):
        check(raises(TypeError, g.inverse), "inverse-accepted", shape)
    check(np.array_equal(g.data, d), "changed-by-inspection")
    ms = g.mesh
    check(raises(AssertionError, Gf, mesh=ms, data=np.zeros((99,) * r + tuple(SH[shape]))), "wrong-data-accepted")
    check(raises(AssertionError, Gf, mesh=ms) and raises(AssertionError, Gf, mesh=ms, data=d, target_shape=SH[shape] or [1]) and raises(AssertionError, Gf, mesh=ms, data=d, is_real=True) and raises(AssertionError, Gf, mesh=ms, target_shape=[0, 2]) and raises(AssertionError, Gf, mesh=3, target_shape=[]), "wrong-arguments-accepted")
    with te.quiet():
        old = Gf(mesh=ms, indices=["a", "b"])
        old2 = Gf(mesh=ms, indices=[["a"], ["b", "c"]])
    check(old.target_shape == (2, 2) and old2.target_shape == (1, 2), "old-indices")
    g.zero()
    check((g.data == 0).all() and g.data.shape == d.shape, "zero")
    state((mesh, shape, real))


@job("meshes")
def meshes_():
    """product meshes: equality, copies, components, write and read"""
    base = [MESH[m](n, b) for m in ("im", "re", "tau", "imB") for n in (2, 3) for b in (5., 6.)]
    i, j, k, l = choose(16), choose(16), choose(16), choose(4)
    l = (k + [0, 1, 2, 4][l]) % 16
    P, Q = MeshProduct(base[i], base[j]), MeshProduct(base[k].copy(), base[(l + j) % 16].copy())
    check((P == Q) == (base[i] == base[k] and base[j] == base[(l + j) % 16]) and (P != Q) == (not P == Q), "product-equality")
    check(P == P.copy() and P.copy() is not P and all(a is not b for a, b in zip(P.copy().components, P.components)), "product-copy")
    check(not P == base[i] and not P == MeshProduct(base[i]) and not P == MeshProduct(base[i], base[j], base[k]) and not MeshProduct(base[i]) == P and P != 3, "product-equality-other")
    check(len(P) == len(base[i]) * len(base[j]) and P.rank == 2 and P[0] is base[i] and P[1] is base[j] and list(P.size_of_components()) == [len(base[i]), len(base[j])], "product-size")
    check([tuple(x.index for x in p) for p in P] == [(a.index, b.index) for a in base[i] for b in base[j]], "product-iteration")
    R = pickle.loads(pickle.dumps(P))
    check(R == P and R.rank == 2, "product-read-back")
    S = MeshProduct.__factory_from_dict__("", dict(P.__reduce_to_dict__()))
    check(S == P, "product-read-back-dict")
    C = P.copy()
    if type(base[i]) is type(base[k]) and type(base[j]) is type(base[(l + j) % 16]):
        C.copy_from(Q)
        check(C == Q and P == S, "product-copy-from")
    check(raises(AssertionError, C.copy_from, MeshProduct(base[i])), "product-copy-from-accepted")
    state((i, j, k, l))


@job("points", shards=2)
def points():
    """arithmetic of mesh points is that of their values"""
    ops = "+-*/"
    vals = []
    for m in ("im", "imB", "re", "tau"):
        vals += [(m, MESH[m]()[i]) for i in (0, 1, 3 if m != "imB" else 2)]
    a = vals[choose(len(vals))]
    kind = choose(3)
    if kind == 0:
        y, yv = (lambda v: (v, v))(pick([2, -.5, 1 - 1j, np.float64(3.)]))
    elif kind == 1:
        b = pick(vals)
        y, yv = b[1], b[1].value
    else:
        y = pick([x.value for _, x in vals])
        yv = y
    o = pick(ops)
    p, v = a[1], a[1].value
    c = complex
    import operator
    f = {"+": operator.add, "-": operator.sub, "*": operator.mul, "/": operator.truediv}[o]

    def val(h):
        try:
            r = c(h())
            return r if np.isfinite(r) else ZeroDivisionError
        except (ZeroDivisionError, RuntimeError, TypeError, AssertionError) as x:
            return type(x)
    with np.errstate(all="ignore"):
        for g, h in ((lambda: f(p, y), lambda: f(v, yv)), (lambda: f(y, p), lambda: f(yv, v))):
            x, w = val(g), val(h)
            check(x == w or isinstance(x, complex) and near(x, w), "mesh-point-arithmetic", a[0], o, y, x, w)
        check(c(-p) == -c(v) and c(p) == c(v) and p.real == v.real and p.imag == v.imag, "mesh-point-value")
    state((a[0], p.data_index, o, kind, str(y)))


@job("window", shards=2)
def window():
    """x_data_view and clip_array give exactly the points inside the window"""
    n = choose(5) + 1
    grid = [-1.5, -1., -.5, 0., .5, 1., 1.5, 2.]
    ix = [0]
    for _ in range(n):
        ix.append(ix[-1] + choose(len(grid) - ix[-1]))
    xs = [grid[i] for i in ix[1:]]
    lo, hi = pick(grid), pick(grid)
    if hi < lo:
        check(raises(AssertionError, clip_array, np.array(xs), lo, hi), "reversed-window-accepted")
        raise Prune()
    sl = clip_array(np.array(xs), lo, hi)
    check(list(np.array(xs)[sl]) == [x for x in xs if lo <= x <= hi], "clip", xs, lo, hi, sl)
    state((tuple(xs), lo, hi))


@job("xdata")
def xdata():
    mesh, shape = pick(["re", "im", "tau"]), pick(["1", "2", "23"])
    g = mk(mesh, shape, n=5)
    xs = [complex(p.value).imag if mesh == "im" else float(p.value) for p in g.mesh]
    w = pick([None] + [(xs[i], xs[j]) for i in range(len(xs)) for j in range(i, len(xs))] + [(xs[0] - 2, xs[0] - 1), (xs[1] + 1e-3, xs[-1] + 5)])
    flat = flip()
    X, D = g.x_data_view(w, flat)
    keep = [i for i, x in enumerate(xs) if w is None or w[0] <= x <= w[1]]
    check([float(x) for x in X] == [xs[i] for i in keep], "window-points", w, X)
    want = g.data[keep]
    if flat and shape == "1":
        want = want[:, 0, 0]
    check(D.shape == want.shape and np.array_equal(D, want), "window-data", w)
    state((mesh, shape, w, flat))


@job("transform")
def transform():
    """from_L_G_R"""
    a, b, c, e = [choose(3) + 1 for _ in range(4)]
    G = Gf(mesh=MESH["im"](), target_shape=[c, e])
    G.data[...] = np.cos(np.arange(G.data.size).reshape(G.data.shape)) + 1j
    g = Gf(mesh=MESH["im"](), target_shape=[a, b])
    L = np.sin(np.arange(a * c).reshape(a, c) + .3) + (.4j if flip() else 0)
    R = np.cos(np.arange(e * b).reshape(e, b) * 1.1)
    fortran = flip()
    if fortran:
        L, R = np.asfortranarray(L), np.asfortranarray(R)
    l0, r0 = L.copy(), R.copy()
    g.from_L_G_R(L, G, R)
    check(near(g.data, np.array([mm(mm(l0, x), r0) for x in G.data]), 1e-12), "L-G-R", a, b, c, e)
    check(np.array_equal(L, l0) and np.array_equal(R, r0), "L-G-R-changed-arguments")
    for x, y in ((L[:, :0] if c else L, R), (np.zeros((a + 1, c)), R), (np.zeros((a, c + 1)), R), (L, np.zeros((e + 1, b))), (L, np.zeros((e, b + 1)))):
        check(raises(AssertionError, g.from_L_G_R, x, G, y), "L-G-R-sizes-accepted", x.shape, y.shape)
    state((a, b, c, e, fortran))


@job("program", shards=12)
def program():
    """sequences of operations on a function, views of it and a copy, against an array with index bookkeeping"""
    mesh = "im"
    g = Gf(mesh=MESH[mesh](), target_shape=[3, 3])
    n = len(g.mesh)
    rng = np.arange(n * 9).reshape(n, 3, 3)
    g.data[...] = np.cos(rng) + 1j * np.sin(3. * rng) + 3 * np.eye(3)
    D = g.data.copy()
    v = g[0:2, 1:3]
    s = g[1, 2]
    c = g.copy()
    CD = c.data.copy()
    trace = []
    for _ in range(tier(4, 5)):
        op = choose(13)
        trace.append(op)
        step()
        with te.quiet():
            if op == 0:
                v *= 2
                D[:, 0:2, 1:3] *= 2
            elif op == 1:
                s += 1.5
                D[:, 1, 2] += 1.5
            elif op == 2:
                g -= c
                D = D - CD
            elif op == 3:
                v << c[1:3, 0:2]
                D[:, 0:2, 1:3] = CD[:, 1:3, 0:2]
            elif op == 4:
                c << g
                CD = D.copy()
            elif op == 5:
                s << g[0, 0]
                D[:, 1, 2] = D[:, 0, 0]
            elif op == 6:
                v += 1j
                D[:, 0:2, 1:3] += 1j * np.eye(2)
            elif op == 7:
                g << 0.5 * g + iOmega_n
                D = .5 * D + np.array([complex(w.value) * np.eye(3) for w in g.mesh])
            elif op == 8:
                if np.linalg.cond(D[:, 0:2, 1:3]).max() > 1e4:
                    raise Prune()
                v.invert()
                D[:, 0:2, 1:3] = np.linalg.inv(D[:, 0:2, 1:3])
            elif op == 9:
                v @= v
                D[:, 0:2, 1:3] = D[:, 0:2, 1:3] @ D[:, 0:2, 1:3]
            elif op == 10:
                g << g.transpose()
                D = np.swapaxes(D, 1, 2).copy()
            elif op == 11:
                g[g.mesh[1]] = np.eye(3) * 2
                D[1] = np.eye(3) * 2
            else:
                h = g[0:2, 1:3] * v - s * v
                v << h
                b = D[:, 0:2, 1:3].copy()
                D[:, 0:2, 1:3] = b @ b - D[:, 1, 2][:, None, None] * b
        if not np.all(np.isfinite(D)) or np.abs(D).max() > 1e8:
            raise Prune()
    tol = 1e-7
    check(near(g.data, D, tol), "program", trace)
    check(near(v.data, D[:, 0:2, 1:3], tol) and near(s.data, D[:, 1, 2], tol), "program-views", trace)
    check(near(c.data, CD, tol), "program-copy", trace)
    state(tuple(trace))


if __name__ == "__main__":
    main()
