"""C46: block containers: programs of operations against a list of (name, array) pairs"""
import pickle, itertools
from collections.abc import Sequence
import numpy as np
from pyex import *
import triqs_env as te
te.setup()
with te.quiet():
    from triqs.gf import *
    import standin_impl

SHAPES = {"s": [], "1": [1, 1], "2": [2, 2], "r": [2, 3]}


def mk(shape, seed, mesh=None, n=2):
    m = mesh or MeshImFreq(7., "Fermion", n)
    g = Gf(mesh=m.copy(), target_shape=SHAPES[shape])
    d = np.arange(g.data.size).reshape(g.data.shape)
    g.data[...] = (np.cos(3.7 * d + seed) + 1j * np.sin(1.3 * d * (seed + 1) + seed))
    if shape in "12":
        g.data[...] += 2 * np.eye(g.target_shape[0])
    return g


def eye(d):
    return np.eye(d.shape[1]) if d.ndim == 3 else 1.


def vadd(d, y):
    return d + (y * eye(d) if np.ndim(y) == 0 else y)


def vmul(a, b):
    """product of two block values (number, matrix or array over the mesh)"""
    if np.ndim(a) == 0 or np.ndim(b) == 0:
        return a * b
    if np.ndim(a) == 1 and np.ndim(b) == 1:
        return a * b
    return np.array([(a if np.ndim(a) == 2 else a[i]) @ (b if np.ndim(b) == 2 else b[i]) for i in range(len(a if np.ndim(a) == 3 else b))])


class Model:
    """ordered list of names and arrays"""
    def __init__(self, names, data):
        self.names, self.data = list(names), [np.array(d) for d in data]

    def copy(self):
        return Model(self.names, self.data)


STRUCTS = [("2",), ("2", "2"), ("1", "2"), ("s", "s"), ("r", "2"), ("2", "2", "2")]
NAMES = ["up", "dn", "x"]


def build(struct, seed, names=None):
    names = list(names or NAMES[:len(struct)])
    bl = [mk(s, seed + 10 * i) for i, s in enumerate(struct)]
    return BlockGf(name_list=names, block_list=bl), Model(names, [b.data for b in bl])


def same(G, M, key, *what):
    ok = list(G.indices) == M.names and len(G) == len(M.names) == G.n_blocks
    got = [(n, g) for n, g in G]
    ok = ok and [n for n, _ in got] == M.names and all(G[n] is g for n, g in got)
    ok = ok and all(g.data.shape == d.shape and np.allclose(g.data, d, rtol=1e-10, atol=1e-10) for (_, g), d in zip(got, M.data))
    check(ok, key, *(what + (": blocks ", M.names, " got ", [n for n, _ in got], [g.data.reshape(-1)[:3].tolist() for _, g in got], " expected ", [d.reshape(-1)[:3].tolist() for d in M.data])))
    return ok


SCAL = [2, -0.5, 1 - 2j, 3.0]


def operand(struct, order):
    """(text, value, list of block values by name) of a right hand side"""
    k = choose(6)
    if k < 4:
        return repr(SCAL[k]), SCAL[k], None
    if k == 4:
        perm = order
        G, M = build(struct, 5)
        if perm:
            names = [NAMES[i] for i in perm]
            blocks = {n: G[n] for n in M.names}
            G = BlockGf(name_list=names, block_list=[blocks[n] for n in names])
        return "BlockGf", G, [M.data[M.names.index(n)] for n in M.names]
    lst = [SCAL[(i + 1) % 4] for i in range(len(struct))]
    return "list", lst, lst


@job("arith", shards=8)
def arith():
    i = choose(len(STRUCTS) * 9)
    struct, op = STRUCTS[i // 9], ["+", "-", "*", "/", "r+", "r-", "r*", "neg", "<<"][i % 9]
    inplace = op in "+-*/" and flip()
    perms = [None] + [p for p in itertools.permutations(range(len(struct)))][1:]
    if op == "neg":
        G, M = build(struct, 1)
        H = -G
        same(H, Model(M.names, [-d for d in M.data]), "negation")
        same(G, M, "operand-changed", op)
        return
    txt, y, vals = operand(struct, pick(perms))
    ys = vals if vals is not None else [y] * len(struct)
    G, M = build(struct, 1)
    rect = "r" in struct
    if rect and (txt not in ("BlockGf",) and op in ("+", "-", "r+", "r-", "<<") or txt == "BlockGf" and op == "*"):
        raise Prune()
    if op in ("*", "r*") and txt == "list" or op in ("/", "r+", "r-", "r*") and txt == "BlockGf" or op == "r+" and txt == "list" or op == "<<" and txt == "list":
        raise Prune()
    if op == "r-" and txt == "list":
        raise Prune()
    f = {"+": vadd, "-": lambda d, v: vadd(d, -v), "*": vmul, "/": lambda d, v: d / v, "r+": lambda d, v: vadd(d, v), "r-": lambda d, v: vadd(-d, v), "r*": lambda d, v: d * v,
         "<<": lambda d, v: (v * np.ones((len(d),) + (1,) * (d.ndim - 1)) * eye(d) if np.ndim(v) == 0 else v)}[op]
    want = Model(M.names, [f(d, v) for d, v in zip(M.data, ys)])
    blocks = [g for _, g in G]
    datas = [g.data for _, g in G]
    with te.quiet():
        if inplace:
            H = G
            if op == "+": H += y
            elif op == "-": H -= y
            elif op == "*": H *= y
            else: H /= y
            check(H is G and all(a is b for a, (_, b) in zip(blocks, H)) and all(a is g.data for a, (_, g) in zip(datas, H)), "in-place-replaced-the-blocks", op, txt)
        elif op == "<<":
            H = G.__lshift__(y)
            check(H is G and all(a is g.data for a, (_, g) in zip(datas, H)), "assignment-replaced-the-blocks", op, txt)
        else:
            H = {"+": lambda: G + y, "-": lambda: G - y, "*": lambda: G * y, "/": lambda: G / y, "r+": lambda: y + G, "r-": lambda: y - G, "r*": lambda: y * G}[op]()
            same(G, M, "operand-changed", op, txt)
            check(isinstance(H, BlockGf) and all(not np.shares_memory(g.data, d) for (_, g), d in zip(H, datas)), "result-aliases-operand", op, txt)
    same(H, want, "arithmetic-differs", struct, " ", op, " ", txt, inplace)
    if txt == "BlockGf":
        M2 = build(struct, 5)[1]
        check(all(np.array_equal(y[n].data, d) for n, d in zip(M2.names, M2.data)), "right-operand-changed", op)
    state((struct, op, txt, inplace))
    sample(struct, " ", op, " ", txt)


@job("matrix")
def matrix():
    """matrices on either side; matrices in sums"""
    struct = pick([("2",), ("2", "2"), ("1", "1")])
    n = 1 if "1" in struct else 2
    m = np.array([[.5, 2.], [-1j, .25]])[:n, :n]
    op = pick(["*", "r*", "+", "-", "r+", "*=", "+=", "-="])
    G, M = build(struct, 1)
    with te.quiet():
        if op == "*": H, f = G * m, lambda d: d @ m
        elif op == "r*": H, f = m * G, lambda d: m @ d
        elif op == "+": H, f = G + m, lambda d: d + m
        elif op == "-": H, f = G - m, lambda d: d - m
        elif op == "r+": H, f = m + G, lambda d: d + m
        elif op == "*=":
            H, f = G, lambda d: d @ m
            H *= m
        elif op == "+=":
            H, f = G, lambda d: d + m
            H += m
        else:
            H, f = G, lambda d: d - m
            H -= m
    same(H, Model(M.names, [f(d) for d in M.data]), "matrix-operation", op)
    if "=" not in op:
        same(G, M, "operand-changed", op)
    state((struct, op))


@job("lazies")
def lazies():
    """lazy expressions, descriptors and block descriptors"""
    struct = pick([("2",), ("2", "2"), ("1", "2"), ("s", "s")])
    G, M = build(struct, 1)
    z = [complex(w.value) for w in G["up"].mesh]
    Z = lambda d: np.array([c * eye(d) for c in z])
    op = pick(["<<", "[:]", "+=", "-=", "+", "-", "r-", "inverse", "Fourier", "Fourier-twice", "selfref", "scalar[]", "gf[]"])
    with te.quiet():
        if op == "<<":
            H, f = G.__lshift__(iOmega_n), Z
        elif op == "[:]":
            G[:] = iOmega_n + 1.5
            H, f = G, lambda d: Z(d) + 1.5 * eye(d)
        elif op in ("+=", "-="):
            H = G
            if op == "+=": H += iOmega_n
            else: H -= iOmega_n
            f = lambda d: d + (1 if op == "+=" else -1) * Z(d)
        elif op in ("+", "-"):
            H = G + iOmega_n if op == "+" else G - iOmega_n
            f = lambda d: d + (1 if op == "+" else -1) * Z(d)
        elif op == "r-":
            H, f = G, lambda d: 2 * Z(d)
            H << 2 * iOmega_n
        elif op == "inverse":
            H, f = G, lambda d: np.array([np.linalg.inv(x) for x in Z(d) + eye(d)]) if d.ndim == 3 else 1 / (Z(d) + 1)
            H << inverse(iOmega_n + 1)
        elif op == "selfref":
            H = G
            for n, g in H:
                g << g + iOmega_n
            f = lambda d: d + Z(d)
        elif op == "scalar[]":
            G["up"] = 3.
            H, f = G, None
            M.data[0] = np.array([3. * eye(M.data[0])] * len(M.data[0]))
        elif op == "gf[]":
            x = mk(struct[0], 77)
            G["up"] = x
            H, f = G, None
            M.data[0] = x.data.copy()
        else:
            T = build(struct, 3)[0]
            D = Fourier(T, 7)
            for X, key in ((G, "block-descriptor"), (G.copy(), "block-descriptor-second-use"))[:1 + (op == "Fourier-twice")]:
                standin_impl.RECORD.clear()
                X << D
                check([(r[0], r[2][0] is T[n], r[2][1:], r[3]) for r, n in zip(standin_impl.RECORD, M.names)] == [("set_from_fourier", True, (7,), {})] * len(M.names), key, len(standin_impl.RECORD))
                same(X, Model(M.names, [0 * d + T[n].data[:1].mean() + 1 for n, d in zip(M.names, M.data)]), key)
            return
    if op in ("+", "-"):
        check(isinstance(H, BlockGf), "lazy-sum-type", op, type(H))
        same(G, M, "operand-changed", op)
    same(H, Model(M.names, [f(d) for d in M.data]) if f else M, "lazy-assignment", struct, op)
    state((struct, op))


@job("structure")
def structure():
    """construction, look up, views, copies, mismatches, iteration"""
    struct = pick(STRUCTS)
    n = len(struct)
    names = pick([list(p) for p in itertools.permutations(NAMES, n)])
    how = pick(["list", "generator", "tuple", "defaults", "copies", "gencopies", "struct"])
    bl = [mk(s, 10 * i) for i, s in enumerate(struct)]
    if how == "list": G = BlockGf(name_list=names, block_list=bl)
    elif how == "tuple": G = BlockGf(name_list=tuple(names), block_list=tuple(bl))
    elif how == "generator": G = BlockGf(name_block_generator=((a, b) for a, b in zip(names, bl)))
    elif how == "defaults":
        names = [str(i) for i in range(n)]
        G = BlockGf(block_list=bl)
    elif how == "copies": G = BlockGf(name_list=names, block_list=bl, make_copies=True)
    elif how == "gencopies": G = BlockGf(name_block_generator=zip(names, bl), make_copies=True)
    else:
        if any(s in "sr" for s in struct):
            raise Prune()
        G = BlockGf(mesh=bl[0].mesh, gf_struct=[(a, int(s)) for a, s in zip(names, struct)])
        check([(a, g.target_shape) for a, g in G] == [(a, (int(s), int(s))) for a, s in zip(names, struct)] and all((g.data == 0).all() for _, g in G), "constructed-from-structure")
        check(len({id(g.data) for _, g in G}) == n, "blocks-share-data")
        for b, (_, g) in zip(bl, G):
            g << b
        how = "copies"
    M = Model(names, [b.data for b in bl])
    same(G, M, "constructed", how)
    shared = how not in ("copies", "gencopies")
    check(all((g is b) == shared for (_, g), b in zip(G, bl)) and all(np.shares_memory(g.data, b.data) == shared for (_, g), b in zip(G, bl)), "copies-or-references", how)
    for bad in ("nope", 0, None):
        check(raises(IndexError, lambda: G[bad]), "unknown-block-accepted", bad)
        check(raises(IndexError, lambda: G.__setitem__(bad, 1.)), "unknown-block-assigned", bad)
    check(list(G.all_indices) == [(a,) + ix for a, d in zip(M.names, M.data) for ix in itertools.product(*[range(x) for x in d.shape[1:]])], "all-indices", list(G.all_indices)[:5])
    # deep copy
    C = G.copy()
    same(C, M, "copy-differs")
    next(iter(C))[1].data[...] = 9
    same(G, M, "copy-not-independent")
    # selections: as in self
    sel = pick([s for r in range(1, n + 1) for s in itertools.permutations(names, r)])
    want = [a for a in names if a in sel]
    V, W = G.view_selected_blocks(list(sel)), G.copy_selected_blocks(list(sel))
    for X in (V, W):
        same(X, Model(want, [M.data[names.index(a)] for a in want]), "selection", sel)
    check(all(np.shares_memory(g.data, G[a].data) for a, g in V) and not any(np.shares_memory(g.data, G[a].data) for a, g in W), "selection-view-or-copy")
    check(raises(AssertionError, G.view_selected_blocks, ["nope"]) and raises(AssertionError, G.copy_selected_blocks, ["nope"]), "unknown-selection")
    # write and read
    for R in (pickle.loads(pickle.dumps(G)), BlockGf.__factory_from_dict__("G", dict(G.__reduce_to_dict__()))):
        same(R, M, "read-back")
    # real and imaginary parts
    same(G.real, Model(names, [d.real for d in M.data]), "real-part")
    same(G.imag, Model(names, [d.imag for d in M.data]), "imaginary-part")
    same(G, M, "changed-by-inspection")
    G.zero()
    same(G, Model(names, [0 * d for d in M.data]), "zero")
    state((struct, tuple(names), how, sel))


@job("assign")
def assign():
    """copying between containers: by name with <<, refused when the structure differs; copy_from: same structure only"""
    s1 = pick(STRUCTS)
    s2 = pick(STRUCTS)
    n1 = NAMES[:len(s1)]
    n2 = pick([list(p) for p in itertools.permutations(NAMES, len(s2))])
    G, M = build(s1, 1, n1)
    H, N = build(s2, 4, n2)
    op = pick(["copy_from", "<<", "[:]", "+=", "-=", "*=", "*"])
    hs, gs = dict(zip(n2, s2)), dict(zip(n1, s1))
    okay = (n1 == n2 and s1 == s2) if op == "copy_from" else set(n1) <= set(n2) and all(hs[a] == gs[a] for a in n1)
    if op in ("*=", "*") and any(s == "r" for s in s1 + s2):
        raise Prune()
    if not okay and op != "copy_from" and set(n1) <= set(n2):
        raise Prune()  # same names with other shapes: refused by the blocks (C52)
    same_struct = set(n1) == set(n2) and okay
    if okay and not same_struct:
        raise Prune()  # more blocks on the right: not specified
    by = {a: d for a, d in zip(n2, N.data)}

    def run():
        nonlocal G
        with te.quiet():
            if op == "copy_from": G.copy_from(H)
            elif op == "<<": G << H
            elif op == "[:]": G[:] = H
            elif op == "+=": G += H
            elif op == "-=": G -= H
            elif op == "*=": G *= H
            else: return G * H
    if not okay:
        check(raises((RuntimeError, AssertionError, IndexError, ValueError), run), "different-structure-accepted", op, s1, n1, s2, n2)
        if op == "copy_from":
            same(G, M, "changed-by-refused-copy")
    else:
        R = run()
        f = {"copy_from": lambda a, b: b, "<<": lambda a, b: b, "[:]": lambda a, b: b, "+=": np.add, "-=": np.subtract, "*=": vmul, "*": vmul}[op]
        want = Model(n1, [f(d, by[a]) for a, d in zip(n1, M.data)])
        same(R if op == "*" else G, want, "assigned-differs", op, n1, n2)
        same(H, N, "source-changed", op)
        if op == "*":
            same(G, M, "operand-changed")
        else:
            for _, g in G:
                g.data[...] = 0
            same(H, N, "assignment-aliases-source", op)
    state((s1, s2, tuple(n2), op))


@job("functions")
def functions():
    """inverse, transpose, conjugate, density; mapping"""
    struct = pick(STRUCTS)
    G, M = build(struct, 1)
    op = pick(["inverse", "invert", "transpose", "conjugate", "density", "total_density", "map-gf", "map-number", "tools"])
    scalar, rect = "s" in struct, "r" in struct
    if rect and op in ("inverse", "invert", "density", "total_density", "tools") or scalar and op in ("transpose", "total_density", "tools"):
        raise Prune()
    inv = lambda d: np.array([np.linalg.inv(x) for x in d]) if d.ndim == 3 else 1 / d
    with te.quiet():
        if op == "inverse": same(G.inverse(), Model(M.names, [inv(d) for d in M.data]), op)
        elif op == "invert":
            G.invert()
            return same(G, Model(M.names, [inv(d) for d in M.data]), op)
        elif op == "transpose": same(G.transpose(), Model(M.names, [np.array([x.T for x in d]) for d in M.data]), op)
        elif op == "conjugate": same(G.conjugate(), Model(M.names, [d.conj() for d in M.data]), op)
        elif op == "density":
            r = G.density()
            check(list(r) == M.names and all(near(r[a], standin_impl.density(G[a])) for a in M.names), "density", r)
        elif op == "total_density":
            check(near(G.total_density(), sum(np.trace(standin_impl.density(g)) for _, g in G)), "total-density")
        elif op == "map-gf":
            R = map_block(lambda g: 2 * g, G)
            same(R, Model(M.names, [2 * d for d in M.data]), "map-block")
        elif op == "map-number":
            r = map_block(lambda g: g.data.shape, G)
            check(list(r) == [d.shape for d in M.data], "map-block-values", r)
        else:
            for f, v in ((inverse, inv), (conjugate, np.conj), (transpose, lambda d: np.swapaxes(d, 1, 2))):
                same(f(G), Model(M.names, [v(d) for d in M.data]), "tool-on-blocks", f.__name__)
    same(G, M, "argument-changed", op)
    state((struct, op))


@job("program", shards=12)
def program():
    """sequences of operations on containers of which one is a view of another"""
    G, M = build(("2", "1", "2"), 1)
    H, N = build(("2", "1", "2"), 3, ["x", "dn", "up"])
    V = G.view_selected_blocks(["x", "up"])
    C = G.copy_selected_blocks(["x", "up"])
    K = Model(["up", "x"], [M.data[0], M.data[2]])
    by = lambda m, a: m.data[m.names.index(a)]
    trace = []
    for _ in range(tier(4, 5)):
        op = choose(12)
        trace.append(op)
        step()
        with te.quiet():
            if op == 0:
                G += H
                for a in M.names: by(M, a)[...] += by(N, a)
            elif op == 1:
                V *= 2
                for a in ("up", "x"): by(M, a)[...] *= 2
            elif op == 2:
                V << C
                for a in ("up", "x"): by(M, a)[...] = by(K, a)
            elif op == 3:
                C << V
                for a in ("up", "x"): by(K, a)[...] = by(M, a)
            elif op == 4:
                H -= 1.5
                for d in N.data: d[...] -= 1.5 * eye(d)
            elif op == 5:
                G["x"][0:1, 0:2] << G["up"][1:2, 0:2]
                by(M, "x")[:, 0:1, 0:2] = by(M, "up")[:, 1:2, 0:2]
            elif op == 6:
                R = G * H
                G = R
                V = G.view_selected_blocks(["x", "up"])
                M = Model(M.names, [vmul(d, by(N, a)) for a, d in zip(M.names, M.data)])
            elif op == 7:
                H = G.copy()
                N = M.copy()
            elif op == 8:
                G["dn"] = H["dn"]
                by(M, "dn")[...] = by(N, "dn")
            elif op == 9:
                V["up"].invert()
                by(M, "up")[...] = np.linalg.inv(by(M, "up"))
            elif op == 10:
                G[:] = G.conjugate()
                for d in M.data: d[...] = d.conj()
            else:
                for n, g in G:
                    g << iOmega_n - g
                for d in M.data: d[...] = np.array([complex(w.value) * eye(d) for w in G.mesh]) - d
    if any(not np.all(np.isfinite(d)) or np.abs(d).max() > 1e6 for d in M.data):
        raise Prune()
    same(G, M, "program", trace)
    same(H, N, "program-second", trace)
    same(C, K, "program-copy", trace)
    same(V, Model(["up", "x"], [by(M, "up"), by(M, "x")]), "program-view", trace)
    state(tuple(trace))


# ------------------------------------------------------------------------------------------------- two indices
N1, N2 = ["a", "b"], ["u", "v", "w"]


def build2(i, j, seed, n1=None, n2=None, shape="2"):
    n1, n2 = n1 or N1[:i], n2 or N2[:j]
    bl = {(a, b): mk(shape, seed + 10 * ord(a[0]) + ord(b[0])) for a in N1 for b in N2}
    G = Block2Gf(n1, n2, [[bl[a, b] for b in n2] for a in n1])
    return G, Model([(a, b) for a in n1 for b in n2], [bl[a, b].data for a in n1 for b in n2])


def same2(G, M, key, *what):
    got = list(G)
    ok = [n for n, _ in got] == M.names == list(G.indices) and len(G) == len(M.names) == G.n_blocks
    ok = ok and list(itertools.product(G.indices1, G.indices2)) == M.names and all(G[n] is g and G[n[0], n[1]] is g for n, g in got)
    ok = ok and all(g.data.shape == d.shape and np.allclose(g.data, d, rtol=1e-10, atol=1e-10) for (_, g), d in zip(got, M.data))
    check(ok, "two-index:" + key, *(what + (": ", [n for n, _ in got], " expected ", M.names)))
    return ok


@job("two_index", shards=4)
def two_index():
    i, j = choose(2) + 1, choose(3) + 1
    shape = pick(["2", "s", "1"])
    op = pick(["+", "-", "*", "/", "+=", "-=", "*=", "/=", "r+", "r-", "r*", "neg", "<<"])
    kind = pick(["number", "block2", "list", "matrix", "lazy"])
    G, M = build2(i, j, 1, shape=shape)
    n1 = pick([list(p) for p in itertools.permutations(N1[:i])]) if kind == "block2" else N1[:i]
    n2 = pick([list(p) for p in itertools.permutations(N2[:j])]) if kind == "block2" else N2[:j]
    if op == "neg":
        same2(-G, Model(M.names, [-d for d in M.data]), "negation")
        return same2(G, M, "operand-changed")
    one = lambda d: eye(d)
    if kind == "number":
        y = pick(SCAL)
        ys = [y] * len(M.names)
    elif kind == "block2":
        y, N = build2(i, j, 6, n1, n2, shape)
        ys = [N.data[N.names.index(a)] for a in M.names]
    elif kind == "list":
        y = [[SCAL[(r + c) % 4] for c in range(j)] for r in range(i)]
        ys = [v for row in y for v in row]
    elif kind == "matrix":
        if shape == "s":
            raise Prune()
        y = np.array([[.5, 2.], [-1j, .25]])
        y = y[:1, :1] if shape == "1" else y
        ys = [y] * len(M.names)
    else:
        y, ys = iOmega_n, [np.array([complex(w.value) * one(d) for w in MeshImFreq(7., "Fermion", 2)]) for d in M.data]
    o = op.strip("r=")
    if o == "/" and kind not in ("number", "list") or kind == "list" and (op[0] == "r" or op == "<<") or op[0] == "r" and kind in ("block2",) or kind == "matrix" and op == "<<" or kind == "lazy" and (o == "*" or op in ("r+", "r-")):
        raise Prune()
    add = lambda d, v: vadd(d, v)
    f = {"+": add, "-": lambda d, v: vadd(d, -v), "*": vmul, "/": lambda d, v: d / v, "<<": lambda d, v: (v * np.ones((len(d),) + (1,) * (d.ndim - 1)) * eye(d) if np.ndim(v) == 0 else v)}[o]
    if op == "r-": f = lambda d, v: vadd(-d, v)
    if op == "r*": f = lambda d, v: vmul(v, d)
    datas = [g.data for _, g in G]
    with te.quiet():
        if op == "+": H = G + y
        elif op == "-": H = G - y
        elif op == "*": H = G * y
        elif op == "/": H = G / y
        elif op == "r+": H = y + G
        elif op == "r-": H = y - G
        elif op == "r*": H = y * G
        elif op == "<<": H = G.__lshift__(y)
        else:
            H = G
            if op == "+=": H += y
            elif op == "-=": H -= y
            elif op == "*=": H *= y
            else: H /= y
    if op[-1] in "=<":
        check(H is G and all(a is g.data for a, (_, g) in zip(datas, G)), "two-index:in-place-replaced-the-blocks", op, kind)
    else:
        same2(G, M, "operand-changed", op, kind)
        check(not any(np.shares_memory(g.data, a) for (_, g), a in zip(H, datas)), "two-index:result-aliases-operand")
    same2(H, Model(M.names, [f(d, v) for d, v in zip(M.data, ys)]), "arithmetic", op, " ", kind)
    state((i, j, shape, op, kind, tuple(n1), tuple(n2)))
    sample(op, kind)


@job("two_structure")
def two_structure():
    i, j = choose(2) + 1, choose(3) + 1
    n1, n2 = pick([list(p) for p in itertools.permutations(N1, i)]), pick([list(p) for p in itertools.permutations(N2, j)])
    G, M = build2(i, j, 1, n1, n2)
    same2(G, M, "constructed")
    how = choose(3)
    if how == 0:
        src = {a: g for a, g in G}
        H = Block2Gf(n1, n2, lambda a, b: src[a, b])
        check(all(H[a] is src[a] for a in M.names), "two-index:not-by-reference")
        K = Block2Gf(n1, n2, lambda a, b: src[a, b], make_copies=True)
        check(not any(np.shares_memory(K[a].data, src[a].data) for a in M.names), "two-index:not-copied")
        same2(H, M, "from-callable")
        same2(K, M, "from-callable")
        L = Block2Gf(n1, n2, [[src[a, b] for b in n2] for a in n1], make_copies=True)
        check(not any(np.shares_memory(L[a].data, src[a].data) for a in M.names), "two-index:list-not-copied")
        C = G.copy()
        same2(C, M, "copy")
        next(iter(C))[1].data[...] = 3
        same2(G, M, "copy-not-independent")
        for bad in (("z", n2[0]), (n1[0], "z"), ("z", "z")):
            check(raises(IndexError, lambda: G[bad]), "two-index:unknown-block-accepted", bad)
        check(raises(AssertionError, Block2Gf, n1, n2, [[mk("1", 0)] * j] * (i + 1)) and raises(AssertionError, Block2Gf, n1, n2, [[mk("1", 0)] * (j + 1)] * i), "two-index:wrong-sizes-accepted")
        check(list(G.all_indices) == [a + x for a in M.names for x in itertools.product(range(2), range(2))], "two-index:all-indices")
        same2(pickle.loads(pickle.dumps(G)), M, "pickled")
        same2(Block2Gf.__factory_from_dict__("x", dict(G.__reduce_to_dict__())), M, "read-back")
        same2(map_block(lambda g: g * 2, G), Model(M.names, [2 * d for d in M.data]), "map")
        check(map_block(lambda g: complex(g.data[0, 0, 0]), G) == [[complex(G[a, b].data[0, 0, 0]) for b in n2] for a in n1], "two-index:map-values")
        same2(G.real, Model(M.names, [d.real for d in M.data]), "real")
        same2(G.imag, Model(M.names, [d.imag for d in M.data]), "imag")
        G[M.names[-1]] = 0.
        M.data[-1][...] = 0
        same2(G, M, "set-block")
        G.zero()
        same2(G, Model(M.names, [0 * d for d in M.data]), "zero")
    elif how == 1:
        s1 = pick([list(s) for r in range(1, i + 1) for s in itertools.permutations(n1, r)])
        s2 = pick([list(s) for r in range(1, j + 1) for s in itertools.permutations(n2, r)])
        w = [(a, b) for a in n1 if a in s1 for b in n2 if b in s2]
        V, W = G.view_selected_blocks(s1, s2), G.copy_selected_blocks(s1, s2)
        for X in (V, W):
            same2(X, Model(w, [M.data[M.names.index(a)] for a in w]), "selection", s1, s2)
        check(all(np.shares_memory(V[a].data, G[a].data) and not np.shares_memory(W[a].data, G[a].data) for a in w), "two-index:view-or-copy")
    else:
        i2, j2 = choose(2) + 1, choose(3) + 1
        H, N = build2(i2, j2, 5)
        if N.names == M.names:
            G.copy_from(H)
            same2(G, N, "copy-from")
        else:
            check(raises((RuntimeError, AssertionError), G.copy_from, H), "two-index:different-structure-accepted", n1, n2, i2, j2)
            same2(G, M, "changed-by-refused-copy")
    state((tuple(n1), tuple(n2), how))


if __name__ == "__main__":
    main()
