"""C51: Dyson, delta, inverse..., make_delta, discretize_bath, Legendre fit, text files"""
import os, io, itertools
import numpy as np
from pyex import *
import triqs_env as te
te.setup()
with te.quiet():
    from triqs.gf import *
    from triqs.gf import tools as T, descriptors
    from triqs.gf.tools import *

MESHES = {"im": lambda n=3: MeshImFreq(5., "Fermion", n), "re": lambda n=5: MeshReFreq(-2., 2., n)}
EPS = [np.array([[.3, 0.], [0., -.7]]), np.array([[0., .4 - .2j], [.4 + .2j, 1.]]), np.array([[0.5]]), 0.25]


def val(e, z):
    """Green's function of the level matrix e at z"""
    return np.linalg.inv(z * np.eye(len(e)) - e) if np.ndim(e) else 1 / (z - e)


def zs(m):
    return [complex(w.value) + (.1j if type(m) is MeshReFreq else 0) for w in m]


def make(mesh, f, shape):
    g = Gf(mesh=mesh, target_shape=shape)
    g.data[...] = [f(z) for z in zs(mesh)]
    return g


def inv(d):
    return np.array([np.linalg.inv(x) for x in d]) if d.ndim == 3 else 1 / d


@job("dyson")
def dyson_():
    kind = pick(["im", "re"])
    struct = pick([[0], [1], [2], [3], [0, 2], [1, 3, 2]])
    miss = pick(["G0_iw", "G_iw", "Sigma_iw"])
    sig = pick([.7, -1.3])
    block = len(struct) > 1 or flip()
    g0s, gs, ss = [], [], []
    for i, k in enumerate(struct):
        e = EPS[k]
        m = MESHES[kind]()
        sh = np.shape(e)
        # a self-energy with one pole and an off-diagonal part
        S = (lambda z, e=e: sig / (z - .3 - i) * (np.eye(len(e)) + .2 * np.ones((len(e), len(e))) * 1j) if np.ndim(e) else sig / (z - .3))
        g0s.append(make(m, lambda z: val(e, z), sh))
        ss.append(make(m, S, sh))
        gs.append(make(m, lambda z: (np.linalg.inv(z * np.eye(len(e)) - e - S(z)) if np.ndim(e) else 1 / (z - e - S(z))), sh))
    pack = (lambda l: BlockGf(name_list=["b%d" % i for i in range(len(l))], block_list=l)) if block else (lambda l: l[0])
    unpack = (lambda g: [b for _, b in g]) if block else (lambda g: [g])
    args = dict(G0_iw=pack(g0s), G_iw=pack(gs), Sigma_iw=pack(ss))
    want = unpack(args.pop(miss))
    keep = {k: [b.data.copy() for b in unpack(v)] for k, v in args.items()}
    r = dyson(**args)
    check(type(r) is type(next(iter(args.values()))), "dyson-type", type(r))
    check(all(near(a.data, b.data, 1e-9) for a, b in zip(unpack(r), want)) and len(unpack(r)) == len(want), "dyson-differs", miss, " ", kind, " ", struct, [b.data.reshape(-1)[:2] for b in unpack(r)], " expected ", [b.data.reshape(-1)[:2] for b in want])
    check(all((b.data == d).all() for k, v in args.items() for b, d in zip(unpack(v), keep[k])), "argument-changed", miss)
    for bad in (dict(), dict(G0_iw=g0s[0]), dict(G0_iw=g0s[0], G_iw=gs[0], Sigma_iw=ss[0]), dict(G0_iw=g0s[0], foo=gs[0])):
        check(raises(ValueError, dyson, **bad), "bad-arguments-accepted", list(bad))
    state((kind, tuple(struct), miss, sig, block))


@job("make_delta")
def make_delta_():
    kind = pick(["im", "imB", "tau", "tauB", "pos"])
    norb, nb = choose(2) + 1, choose(3) + 1
    cplx = flip()
    eps = [pick([-1., 0., .3, 40.]) for _ in range(nb)]
    beta = pick([2., 50.])
    V = np.array([[np.cos(1.3 * a + 2.1 * b) + (1j * np.sin(a + 3. * b) if cplx else 0) for b in range(nb)] for a in range(norb)])
    m = {"im": lambda: MeshImFreq(beta, "Fermion", 4), "imB": lambda: MeshImFreq(beta, "Boson", 4), "pos": lambda: MeshImFreq(beta, "Fermion", 4), "tau": lambda: MeshImTime(beta, "Fermion", 5), "tauB": lambda: MeshImTime(beta, "Boson", 5)}[kind]()
    if kind == "imB" and 0. in eps:
        raise Prune()
    form = pick(["array", "list", "blocks"])
    if form == "blocks":
        names = ["x", "y"] if flip() else None
        V2 = 2 * V[:, :1]
        with te.quiet():
            D = make_delta([V, V2], [np.array(eps), np.array([.1])], m, **({"block_names": names} if names else {}))
        check(isinstance(D, BlockGf) and list(D.indices) == (names or ["0", "1"]), "make-delta-blocks", D)
        pairs = [(D[n], v, e) for n, v, e in zip(D.indices, [V, V2], [eps, [.1]])]
    else:
        with te.quiet():
            pairs = [(make_delta(V, np.array(eps) if form == "array" else list(eps), m), V, eps)]
    for g, v, e in pairs:
        for p, x in zip(m, g.data):
            w = np.zeros((norb, norb), complex)
            for j in range(len(e)):
                if kind[0] in "ip":
                    s = 1 / (complex(p.value) - e[j])
                else:
                    t = float(p.value)
                    s = -np.exp(-t * e[j]) / (1 + np.exp(-beta * e[j])) if e[j] >= 0 else -np.exp((beta - t) * e[j]) / (1 + np.exp(beta * e[j]))
                for a in range(norb):
                    for b in range(norb):
                        w[a, b] += v[a, j] * s * np.conj(v[b, j])
            if not check(near(x, w, 1e-9), "make-delta-differs", kind, norb, e, beta, cplx, x.tolist(), " expected ", w.tolist()):
                return
        check(g.mesh == m, "make-delta-mesh")
    check(raises(AssertionError, make_delta, V, eps + [1.], m), "make-delta-sizes-accepted")
    check(raises(AssertionError, make_delta, [V, V], [eps], m), "make-delta-sizes-accepted")
    state((kind, norb, tuple(eps), beta, cplx, form))
    sample(kind, eps)


@job("delta")
def delta_():
    """hybridisation of a level coupled to a bath, recovered from the non-interacting function"""
    struct = pick([[0], [1], [2], [3], [1, 2], [3, 0]])
    bath = pick([(.5, 1.), (-.8, .4), (0., .7)])
    m = MeshImFreq(10., "Fermion", 60)
    gs, ds = [], []
    for k in struct:
        e = EPS[k]
        n = len(e) if np.ndim(e) else 0
        v = (np.arange(1, n + 1)[:, None] * bath[1] if n else bath[1])
        D = lambda z: (v @ np.conj(v.T) / (z - bath[0]) if n else abs(v) ** 2 / (z - bath[0]))
        gs.append(make(m, lambda z: np.linalg.inv(z * np.eye(n) - e - D(z)) if n else 1 / (z - e - D(z)), np.shape(e)))
        ds.append(np.array([D(z) for z in zs(m)]))
    block = len(struct) > 1 or flip()
    G = BlockGf(name_list=["b%d" % i for i in range(len(gs))], block_list=gs) if block else gs[0]
    keep = [g.data.copy() for g in gs]
    with te.quiet():
        r = delta(G)
    got = [b.data for _, b in r] if block else [r.data]
    check(isinstance(r, BlockGf) == block and (not block or list(r.indices) == list(G.indices)), "delta-structure")
    check(all(np.abs(a - b).max() < 1e-4 for a, b in zip(got, ds)), "delta-differs", struct, bath, [np.abs(a - b).max() for a, b in zip(got, ds)])
    check(all((g.data == d).all() for g, d in zip(gs, keep)), "argument-changed", "delta")
    x = gs[0].copy()
    x.data[3] += .3 + .2j * np.arange(1, x.data[3].size + 1).reshape(x.data[3].shape)
    check(raises(AssertionError, delta, x), "not-hermitian-accepted")
    check(raises(TypeError, delta, Gf(mesh=MeshReFreq(-1., 1., 4), target_shape=[1, 1])), "wrong-mesh-accepted")
    state((tuple(struct), bath, block))


@job("unary")
def unary():
    """inverse, conjugate and transpose of functions, numbers and lazies, also composed and of temporaries"""
    kind = pick(["im", "re"])
    e = pick(EPS)
    fs = [pick(["inverse", "conjugate", "transpose", None]) for _ in range(3)]
    what = pick(["gf", "lazy"])
    mat = np.ndim(e) == 2
    if not mat and "transpose" in fs:
        raise Prune()
    m = MESHES[kind]()
    g = make(m, lambda z: val(e, z) + (.3j * np.arange(e.size).reshape(e.shape) if mat else 0), np.shape(e))
    keep = g.data.copy()
    if what == "gf":
        x, d = g, keep.copy()
    else:
        x, d = iOmega_n - (g if True else 0), np.array([complex(w.value) * (np.eye(len(e)) if mat else 1) for w in m]) - keep
    for f in fs:
        if f == "inverse":
            x, d = inverse(x), inv(d)
        elif f == "conjugate":
            x, d = conjugate(x), d.conj()
        elif f == "transpose":
            x, d = transpose(x), np.swapaxes(d, 1, 2)
    if what == "lazy":
        h = Gf(mesh=m.copy(), target_shape=np.shape(e))
        with te.quiet():
            h << x
        x = h
    elif any(fs):
        check(not np.shares_memory(x.data, g.data), "result-aliases-argument", fs)
        x.mesh.copy_from(MeshImFreq(77., "Fermion", 3) if kind == "im" else MeshReFreq(-9., 9., 5))
        check(g.mesh == MESHES[kind](), "result-shares-mesh", fs)
    check(near(x.data, d, 1e-8), "unary-differs", what, " ", kind, " ", fs, x.data[0].tolist(), " expected ", d[0].tolist())
    check((g.data == keep).all(), "argument-changed", fs)
    for z in (2., -.5, 1 + 2j):
        check(near(inverse(z), 1 / z), "inverse-of-number", z)
    state((kind, str(e), tuple(fs), what))


@job("zero_tail")
def zero_tail():
    sh = pick([[], [1, 1], [2, 2], [2, 3], [2, 2, 2]])
    m = pick([MeshImFreq(5., "Fermion", 2), MeshReFreq(-1., 1., 3), MeshImTime(5., "Fermion", 4), MeshReTime(0., 1., 4)])
    n = pick([None, -1, 0, 1, 2, 7])
    g = Gf(mesh=m, target_shape=sh)
    block = flip()
    G = BlockGf(name_list=["a", "b"], block_list=[g, g.copy()]) if block else g
    r = make_zero_tail(G) if n is None else make_zero_tail(G, n)
    k = 10 if n is None else max(1, n)
    for t in (r if block else [r]):
        check(t.shape == (k,) + tuple(sh) and (t == 0).all() and t.dtype == np.complex128, "zero-tail", sh, n, t.shape)
    check(len(r) == 2 if block else True, "zero-tail-blocks")
    check(raises(RuntimeError, make_zero_tail, Gf(mesh=MeshLegendre(5., "Fermion", 3), target_shape=[1, 1])) and raises(RuntimeError, make_zero_tail, 3), "zero-tail-mesh-accepted")
    state((tuple(sh), str(m), n, block))


@job("legendre")
def legendre():
    """a function that is a Legendre series is recovered exactly"""
    import numpy.polynomial.legendre as leg
    norb, order = choose(2) + 1, choose(5) + 1
    asked = order + choose(3)
    n = pick([12, 21])
    beta = pick([1., 7.])
    cplx = flip()
    rng = np.arange(order * norb * norb).reshape(order, norb, norb)
    c = np.cos(1.7 * rng + .3) + (1j * np.sin(2.3 * rng) if cplx else 0)
    c = c + np.conj(np.swapaxes(c, 1, 2))  # hermitian
    m = MeshImTime(beta, "Fermion", n)
    g = Gf(mesh=m, target_shape=[norb, norb])
    for i, t in enumerate(m):
        x = 2 * float(t.value) / beta - 1
        for l in range(order):
            g.data[i] += np.sqrt(2 * l + 1) / beta * c[l] * leg.legval(x, [0] * l + [1])
    keep = g.data.copy()
    skew = flip()
    if skew:  # the anti-Hermitian part is removed
        g.data[...] += 1j * np.eye(norb)
    block = flip()
    r = fit_legendre(BlockGf(name_list=["a", "b"], block_list=[g, 2 * g]) if block else g, asked)
    for gl, f in (zip([b for _, b in r], (1, 2)) if block else [(r, 1)]):
        want = np.concatenate([c, np.zeros((asked - order, norb, norb))]) * f
        check(type(gl.mesh) is MeshLegendre and len(gl.mesh) == asked and gl.mesh.beta == beta and gl.mesh.statistic == "Fermion", "legendre-mesh", gl.mesh)
        check(near(gl.data, want, 1e-7), "legendre-differs", norb, order, asked, gl.data.reshape(-1)[:3], " expected ", want.reshape(-1)[:3])
    if not skew:
        check((g.data == keep).all(), "argument-changed", "fit_legendre")
    for bad in (Gf(mesh=MeshImFreq(5., "Fermion", 2), target_shape=[1, 1]), Gf(mesh=m, target_shape=[])):
        check(raises(AssertionError, fit_legendre, bad), "legendre-accepted", bad)
    state((norb, order, asked, n, beta, cplx, skew, block))


@job("text")
def text_():
    """text files written and read again"""
    n = choose(2) + 1
    pts = pick([2, 3, 7])
    w = pick([(-1., 1.), (0., 5.), (-.125, 3.)])
    g = Gf(mesh=MeshReFreq(w[0], w[1], pts), target_shape=[n, n], name="gg")
    d = np.arange(g.data.size).reshape(g.data.shape)
    g.data[...] = np.cos(1.7 * d) / 3 + 1j * np.sin(2.9 * d) * 1e-7 * pick([1, 1e9])
    keep = g.data.copy()
    write_gf_to_txt(g)
    files = [["gg_%d_%d.dat" % (i, j) for j in range(n)] for i in range(n)]
    check(all(os.path.exists(f) for r in files for f in r), "files-missing")
    with te.quiet():
        r = read_gf_from_txt(files if flip() else np.array(files), "bl")
    check(r.name == "bl" and r.data.shape == g.data.shape and near(r.data, keep, 1e-14), "text-round-trip", r.data.reshape(-1)[:4], keep.reshape(-1)[:4])
    check(near([float(x.value) for x in r.mesh], [float(x.value) for x in g.mesh], 1e-13), "text-mesh")
    check((g.data == keep).all(), "argument-changed")
    for i, j in itertools.product(range(n), range(n)):
        os.remove(files[i][j])
    h = Gf(mesh=MeshImFreq(3., "Fermion", 2), target_shape=[n, n], name="h")
    h.data[...] = np.arange(h.data.size).reshape(h.data.shape) * (1 + 2j)
    write_gf_to_txt(h)
    for i, j in itertools.product(range(n), range(n)):
        x = np.loadtxt("h_%d_%d.dat" % (i, j))
        check(near(x, np.array([[complex(p.value).imag, v.real, v.imag] for p, v in zip(h.mesh, h.data[:, i, j])]), 1e-14), "text-columns")
        os.remove("h_%d_%d.dat" % (i, j))
    check(raises(ValueError, write_gf_to_txt, Gf(mesh=MeshImTime(3., "Fermion", 3), target_shape=[1, 1])), "text-mesh-accepted")
    state((n, pts, w))


@job("bath", shards=8)
def bath():
    """the discretised bath rebuilds the reported hybridisation, sorted, and the argument is not changed"""
    k = choose(24)
    kind, norb, scalar, cplx = ["im", "tau"][k % 2], [1, 2][k // 2 % 2], k // 4 % 3 == 0, k // 12 == 1
    if scalar and norb == 2:
        raise Prune()
    nb = choose(3) + 1
    v0 = pick([None, .3, "array"])
    block = flip()
    eps = np.array([-.6, .2, .9])[:norb + 1]
    V = np.array([[.7, .2, -.4], [.1, .5, .3]])[:norb, :norb + 1] * (1 + (.3j if cplx and norb == 2 else 0))
    m = MeshImFreq(8., "Fermion", 40) if kind == "im" else MeshImTime(8., "Fermion", 41)
    with te.quiet():
        d = make_delta(V, eps, m)
        if scalar:
            d = d[0, 0].copy()
        if kind == "tau" and flip():
            d.data[...] += 1e-3j * (np.ones(()) if scalar else np.eye(norb))  # not Hermitian
        keep = d.data.copy()
        V0 = np.array([[.2 + .1 * (i + j) for j in range(nb)] for i in range(norb)]) if v0 == "array" else v0
        eps0 = pick([2., [.1 * i - .3 for i in range(nb)]])
        if block and isinstance(eps0, list):
            raise Prune()
        arg = BlockGf(name_list=["p", "q"], block_list=[d, d.copy()]) if block else d
        np.seterr(all="ignore")
        r = discretize_bath(arg, nb, eps0=eps0, V0=V0, maxiter=3, cmplx=cplx, tol=1e-3)
    res = zip(*[list(x) if not isinstance(x, BlockGf) else [b for _, b in x] for x in r]) if block else [r]
    for Vo, eo, do in res:
        check(Vo.shape == (norb, nb) and len(eo) == nb and (np.diff(eo) >= 0).all(), "bath-shape-or-order", Vo.shape, eo)
        with te.quiet():
            w = make_delta(Vo, eo, m).data
        w = w[:, 0, 0] if scalar else w
        check(do.data.shape == keep.shape and near(do.data, w, 1e-9), "bath-does-not-rebuild", kind, norb, nb)
        check(np.iscomplexobj(Vo) == cplx, "bath-hopping-type", Vo.dtype)
        start = norm(np.linalg.norm(w - keep))
    if block:
        check(list(r[2].indices) == ["p", "q"], "bath-blocks")
    check((d.data == keep).all(), "argument-changed", "discretize_bath")
    state((kind, norb, scalar, cplx, nb, str(v0), block))


def norm(x):
    return float(x)


@job("bath_exact", shards=4)
def bath_exact():
    """started at, or close to, the bath that made the hybridisation, the fit returns it (for every method)"""
    kind = pick(["im", "tau"]); scalar = flip(); cplx = flip(); method = pick(["BFGS", "Nelder-Mead"]); shift = pick([0., .02])
    norb = 1 if scalar else choose(2) + 1
    if method == "Nelder-Mead" and norb == 2 and shift:
        raise Prune()
    m = MeshImFreq(8., "Fermion", 30) if kind == "im" else MeshImTime(8., "Fermion", 31)
    eps = np.array([-.6, .3])
    V = np.array([[.7, .2], [.1, .5]])[:norb] * (1 + (.3j if cplx and norb == 2 else 0))
    with te.quiet():
        d = make_delta(V, eps, m)
        d = d[0, 0].copy() if scalar else d
        order = [0, 1] if flip() else [1, 0]
        Vo, eo, do = discretize_bath(d, 2, eps0=list((eps + shift)[order]), V0=V[:, order] * (1 + shift), cmplx=cplx, method=method, maxiter=3000, tol=1e-13)
    check(np.abs(do.data - d.data).max() < (1e-9 if not shift else 2e-3), "fit-leaves-the-solution", kind, scalar, cplx, method, shift, np.abs(do.data - d.data).max())
    state((kind, scalar, cplx, method, shift, norb, tuple(order)))


if __name__ == "__main__":
    main()
