"""C47: densities of states, Hilbert transforms, sums over k"""
import itertools, math, os, pickle, sys, types, copy
import numpy as np
from pyex import *
import triqs_env as te
te.setup()
import vranks as vr
with te.quiet():
    import triqs.utility.mpi as the_mpi
    import triqs.utility
    from triqs.gf import *
    from triqs.gf.gf import Gf
    from triqs.dos import DOS, DOSFromFunction, HilbertTransform
    from triqs.dos.dos import dos_from_file
    from triqs.sumk import SumkDiscrete
    from triqs.sumk.sumk_discrete_from_lattice import SumkDiscreteFromLattice
    from triqs.lattice.tight_binding import TBLattice
    from triqs.lattice.bz_patch import BZPatch


@job("density", shards=8)
def density():
    """filling of a band given on a grid: trapezoids, for every position of the chemical potential"""
    n = choose(tier(3, 4)) + 2
    steps = [pick([.5, 1., .25]) for _ in range(n - 1)]
    if n > 3 and len(set(steps)) > 2:
        raise Prune()
    eps = np.array([-1.] + list(np.cumsum(steps) - 1.))
    rho = np.array([pick([0., 1., 2.5]) for _ in range(n)])
    d = DOS(eps, rho, "x")
    full = [0.]
    for i in range(1, n):
        full.append(full[-1] + (eps[i] - eps[i - 1]) * (rho[i] + rho[i - 1]) / 2)
    check(abs(d.density(eps[0] - 1)) < 1e-12 and abs(d.density(eps[0] - 1e-6)) < 1e-12, "density-below-band", eps, rho, d.density(eps[0] - 1))
    check(abs(d.density(eps[0])) < 1e-12, "density-at-lower-edge", eps, rho)
    check(abs(d.density(eps[-1] + 3) - full[-1]) < 1e-12, "density-above-band", eps, rho, d.density(eps[-1] + 3), full[-1])
    for i in range(n):
        check(abs(d.density(eps[i]) - full[i]) < 1e-12, "density-at-point", i, eps, rho, d.density(eps[i]), full[i])
        if i:
            prev = full[i - 1]
            for x in (1e-6, .25, .5, .75, 1 - 1e-6):
                v = d.density(eps[i - 1] + x * (eps[i] - eps[i - 1]))
                check(full[i - 1] - 1e-12 <= v <= full[i] + 1e-12 and v >= prev - 1e-12, "density-not-monotone", i, x, eps, rho)
                if rho[i] == rho[i - 1]:
                    check(abs(v - full[i - 1] - x * (full[i] - full[i - 1])) < 1e-12, "density-constant-part", i, x, eps, rho)
                prev = v
    z = int(np.searchsorted(eps, 0., side="right"))
    check(d.density() == d.density(0), "density-default")
    for e in (pickle.loads(pickle.dumps(d)), d.copy(), copy.deepcopy(d), DOS.__factory_from_dict__("x", d.__reduce_to_dict__())):
        check(np.array_equal(e.eps, eps) and np.array_equal(e.rho, rho) and e.name == "x", "copy", e.name)
        e.rho[0] += 1
        e.eps[0] -= 1
        check(np.array_equal(d.eps, eps) and np.array_equal(d.rho, rho), "copy-not-independent")
        e.rho[0] -= 1
        e.eps[0] += 1
        check(np.array_equal(d.eps, eps) and np.array_equal(d.rho, rho), "copy-not-independent")
    p = d._plot_({})
    check(len(p) == 1 and np.array_equal(p[0]["xdata"], eps) and np.array_equal(p[0]["ydata"], rho), "plot")
    state((tuple(eps), tuple(rho)))


@job("construct")
def construct():
    """what is not a pair of one-dimensional arrays of one length is refused; arguments are not modified nor shared"""
    e = pick([[0, 1, 2], np.arange(3.), (1, 2), [[1, 2]], 3., []])
    r = pick([[1, 2, 1], np.ones(3), (1, 2), [[1, 2]], 3., []])
    good = np.ndim(e) == 1 and np.ndim(r) == 1 and len(e) == len(r)
    if not good:
        check(raises((RuntimeError, AssertionError), DOS, e, r), "bad-arrays-accepted", e, r)
    else:
        d = DOS(e, r)
        check(list(d.eps) == list(e) and list(d.rho) == list(r) and d.name == "", "arrays-kept")
        if len(e):
            d.eps[0], d.rho[0] = 9, 9
            check(list(e)[0] != 9 and list(r)[0] != 9, "arrays-shared")
    state((str(e), str(r)))


@job("file", shards=4)
def file():
    """densities read from a text file"""
    norb, npts, blank = choose(3) + 1, choose(3) + 1, choose(3)
    fmt = pick(["%r", "%.3e", "%d"])
    tab = [[(i * 7 + j * 3) % 11 - (5 if j == 0 else 0) + (0 if fmt == "%d" else .5) for j in range(norb + 1)] for i in range(npts)]
    with open("rho.dat", "w") as f:
        f.write("\n" * blank + "  \n" * (blank > 1))
        f.write("\n".join((" " * (blank > 0)) + pick_sep(blank).join(fmt % x for x in row) for row in tab) + ("\n" if flip() else ""))
    tab = np.array(tab, dtype=float)
    one = choose(norb + 3) - 1
    if one == -1:
        l = dos_from_file("rho.dat", "n")
        check(len(l) == norb, "file-number", len(l), norb)
        for i, d in enumerate(l):
            check(np.allclose(d.eps, tab[:, 0], 1e-12) and np.allclose(d.rho, tab[:, i + 1], 1e-12) and d.name == "n", "file-columns", i, d.eps, d.rho, tab)
    elif one == 0:
        pass
    elif one <= norb:
        d = dos_from_file("rho.dat", "n", one)
        check(isinstance(d, DOS) and np.allclose(d.eps, tab[:, 0]) and np.allclose(d.rho, tab[:, one]), "file-single", one)
    else:
        check(raises(Exception, dos_from_file, "rho.dat", "n", one), "file-wrong-orbital-accepted", one)
    state((norb, npts, blank, fmt, one))


def pick_sep(b):
    return [" ", "   ", "\t"][b]


@job("files-bad")
def files_bad():
    text = pick(["", "\n\n", "1\n2\n", "1 2\n3\n", "1 2 3\n4 5\n"])
    open("bad.dat", "w").write(text)
    check(raises(Exception, dos_from_file, "bad.dat"), "bad-file-accepted", repr(text))
    state(text)


@job("function")
def function():
    """a density given as a function is tabulated on the uniform grid, ends included"""
    lo, hi = pick([-1., 0., .5]), pick([1., 2.])
    n = choose(6) + 2
    f = pick([lambda e: 1 + e * e, lambda e: math.exp(e), lambda e: abs(e)])
    d = DOSFromFunction(f, lo, hi, n, "nm")
    want = [lo + (hi - lo) * i / (n - 1) for i in range(n)]
    check(len(d.eps) == n and np.allclose(d.eps, want, 1e-13, 1e-13) and np.allclose(d.rho, [f(e) for e in want], 1e-12) and d.name == "nm", "function-grid", lo, hi, n, d.eps)
    e = copy.copy(d)
    check(type(e) == DOSFromFunction and np.array_equal(e.eps, d.eps) and np.array_equal(e.rho, d.rho) and e.name == "nm", "function-copy")
    check(raises(AssertionError, DOSFromFunction, 3, 0., 1.), "not-callable-accepted")
    state((lo, hi, n))


def weights(eps, rho):
    """the quadrature of the Hilbert transform"""
    n = len(eps)
    w = np.array([rho[i] * ((eps[1] - eps[0]) if i == 0 else (eps[-1] - eps[-2]) if i == n - 1 else (eps[i + 1] - eps[i - 1]) / 2) for i in range(n)])
    return w / w.sum()


def mesh_of(kind):
    return MeshImFreq(5., "Fermion", 2) if kind == "im" else MeshImFreq(5., "Boson", 2) if kind == "imB" else MeshReFreq(-1., 1.3, 3)


def sig(mesh, n, seed=0):
    g = Gf(mesh=mesh, target_shape=[n, n])
    a = np.arange(g.data.size).reshape(g.data.shape) + 50 * seed
    g.data[...] = .3 * np.cos(a * 1.3) + .2j * np.sin(a * .7) - .4j * np.eye(n)
    return g


DOSES = {"uniform": ([-1., 0., 1.], [1., 2., .5]), "two": ([-.5, .75], [1., 3.]), "uneven": ([-1., -.5, .7, 1.], [.5, 1., 2., 0.]), "zeros": ([-1., 0., 1., 2.], [0., 1., 1., 0.])}


def reference(mesh, n, eps, w, mu, eta, S, field, hat):
    out = []
    for p, z in enumerate(mesh):
        z = complex(z.value)
        acc = np.zeros((n, n), complex)
        for e, x in zip(eps, w):
            m = (z + mu + 1j * eta) * np.eye(n) - hat(e) - S(e)[p]
            if field is not None:
                m = m - field(p)
            acc += x * np.linalg.inv(m)
        out.append(acc)
    return np.array(out)


@job("hilbert", shards=8)
def hilbert():
    """the transform against the sum over the energies, for every combination of the arguments"""
    eps, rho = pick(list(DOSES.values()))
    kind = pick(["im", "re", "imB"])
    n = choose(2) + 1
    fnt = choose(3)
    mu, eta = pick([(0, 0), (.4, .3), (-1, .2)])
    fld = choose(4)
    hat_kind = choose(2 + (n > 1))
    given = choose(3)
    mesh = mesh_of(kind)
    S0 = sig(mesh, n)
    if kind != "im" and eta == 0:
        raise Prune()
    if fnt == 0:
        arg, S = S0, lambda e: S0.data
    elif fnt == 1:
        arg = lambda e: S0 * (1 + .3 * e)
        S = lambda e: S0.data * (1 + .3 * e)
    else:
        def arg(e):
            r = S0.copy()
            r.data[...] *= e
            return r
        S = lambda e: S0.data * e
    f0 = np.array([[.3, .1], [.2, -.4]])[:n, :n]
    F = sig(mesh, n, 3)
    field, fref = [(None, None), (.7, lambda p: .7 * np.eye(n)), (f0, lambda p: f0), (F, lambda p: F.data[p])][fld]
    A = np.array([[1., .5], [.5, -1.]])
    hats = [(None, lambda e: e * np.eye(n)), (lambda x: np.array([(e * e + .1) * np.eye(n) for e in x]), lambda e: (e * e + .1) * np.eye(n)),
            (lambda x: np.array([e * A for e in x]), lambda e: e * A)]
    epsilon_hat, href = hats[hat_kind]
    res = None if given == 0 else sig(mesh, n, 9) if given == 1 else F.copy()
    d = DOS(eps, rho)
    H = HilbertTransform(d) if given != 2 else pickle.loads(pickle.dumps(HilbertTransform(d)))
    s0, f_0 = S0.data.copy(), F.data.copy()
    kw = {}
    if epsilon_hat is not None:
        kw["epsilon_hat"] = epsilon_hat
    if field is not None:
        kw["field"] = field
    if res is not None:
        kw["result"] = res
    with te.quiet():
        G = H(arg, mu=mu, eta=eta, **kw)
    check(res is None or G is res, "hilbert-result-not-used", given)
    want = reference(mesh, n, eps, weights(eps, rho), mu, eta, S, fref, href)
    check(near(G.data, want, 1e-9), "hilbert", eps, kind, n, "sigma", fnt, "mu eta", mu, eta, "field", fld, "hat", hat_kind, "result", given)
    check(np.array_equal(S0.data, s0) and np.array_equal(F.data, f_0) and np.array_equal(d.rho, rho) and np.array_equal(d.eps, eps), "hilbert-changed-arguments", fld)
    check(raises(AssertionError, H, arg, n_points_integral=5) and raises(AssertionError, H, arg, test_convergence=1e-3), "hilbert-options-of-function-dos-accepted")
    check(raises(AssertionError, H, Gf(mesh=mesh, target_shape=[1, 2])), "hilbert-not-square-accepted")
    check(raises(AssertionError, H, S0, result=sig(mesh, n + 1)), "hilbert-wrong-result-size-accepted")
    check(raises((AssertionError, TypeError), H, 3) and raises(AssertionError, HilbertTransform, 3), "hilbert-not-a-function-accepted")
    state((len(eps), eps[0], kind, n, fnt, mu, fld, hat_kind, given))


@job("refine", shards=2)
def refine():
    """transforms of a density given as a function: number of points, refinement until converged"""
    f = pick([lambda e: 1 + e * e, lambda e: 2 / math.pi * math.sqrt(max(0., 1 - e * e))])
    n0, npts = choose(3) * 3 + 4, pick([None, 5, 8])
    tol = pick([None, .3, 1e-1, 1e-2])
    n = choose(2) + 1
    mesh = mesh_of("im")
    S0 = sig(mesh, n)
    H = HilbertTransform(DOSFromFunction(f, -1., 1., n0))
    kw = {}
    if npts:
        kw["n_points_integral"] = npts
    if tol:
        kw["test_convergence"] = tol
    with te.quiet():
        G = H(S0, **kw)

    def exact(k):
        eps = [-1 + 2. * i / (k - 1) for i in range(k)]
        return reference(mesh, n, eps, weights(eps, [f(e) for e in eps]), 0, 0, lambda e: S0.data, None, lambda e: e * np.eye(n))
    k, got = npts or n0, exact(npts or n0)
    if tol:
        for _ in range(9):
            k *= 2
            old, got = got, exact(k)
            if np.abs(got - old).max() <= tol * np.abs(got).max():
                break
    check(near(G.data, got, 1e-9), "hilbert-refined", n0, npts, tol)
    check(len(H.dos.eps) == k, "hilbert-points", len(H.dos.eps), k)
    state((n0, npts, tol, n))


class proxy(types.ModuleType):
    """triqs.utility.mpi of the running virtual rank"""
    import threading
    local = threading.local()

    def __getattr__(self, n):
        return getattr(proxy.local.m, n)


def on_ranks(size, devs, body):
    """body(rank) on every virtual rank; returns the results"""
    w = vr.World(size, deviations=devs, delays=0, eager=True)
    p = proxy("triqs.utility.mpi")

    def run(r, comm):
        m = te.load_source("utility/mpi_mpi4py.py", {"mpi4py": vr.mpi4py_module(comm)})
        m.time = types.SimpleNamespace(sleep=lambda s: w.switch(r, yielding=True))
        proxy.local.m = m
        return body(r)
    import triqs.dos.hilbert_transform as ht, triqs.sumk.sumk_discrete as sd
    saved = sys.modules["triqs.utility.mpi"], triqs.utility.mpi, ht.mpi, sd.mpi
    sys.modules["triqs.utility.mpi"] = triqs.utility.mpi = ht.mpi = sd.mpi = p
    try:
        with te.quiet():
            w.run(run)
    finally:
        sys.modules["triqs.utility.mpi"], triqs.utility.mpi, ht.mpi, sd.mpi = saved
    check(w.aborting is None, "ranks-stuck:" + str(w.aborting))
    for r, x in w.errors.items():
        fail("rank-raised", r, repr(x))
    return w.results


@job("ranks", shards=4)
def ranks():
    """the transform and the k sum give the whole sum on every rank, whatever the number of ranks and their order"""
    size = choose(4) + 1
    what = choose(3)
    n = choose(2) + 1
    mesh = mesh_of("im")
    if what < 2:
        eps, rho = pick([DOSES["uniform"], DOSES["uneven"], DOSES["two"]])
        want = reference(mesh, n, eps, weights(eps, rho), .2, 0, lambda e: sig(mesh, n).data * (e if what else 1), None, lambda e: e * np.eye(n))

        def body(r):
            S0 = sig(mesh, n)
            return HilbertTransform(DOS(eps, rho))((lambda e: S0 * e) if what else S0, mu=.2).data
    else:
        nk = choose(4) + 1
        hop = [.3 * np.cos(np.arange(n * n).reshape(n, n) + k) for k in range(nk)]
        hop = [h + h.T for h in hop]
        want = np.array([sum(np.linalg.inv((complex(z.value) + .2) * np.eye(n) - h - s) for h in hop) / nk for z, s in zip(mesh, sig(mesh, n).data)])

        def body(r):
            sk = SumkDiscrete(2, list(range(n)))
            sk.resize_arrays(nk)
            sk.hopping[...] = hop
            S = BlockGf(name_list=["a", "b"], block_list=[sig(mesh, n), sig(mesh, n)], make_copies=True)
            G = sk(S, mu=.2)
            check(np.array_equal(G["a"].data, G["b"].data), "blocks-differ")
            return G["a"].data
    res = on_ranks(size, tier(1, 2), body)
    for r in range(size):
        check(r in res and near(res[r], want, 1e-9), "sum-on-ranks", "rank", r, "of", size, "case", what)
    state((size, what, n, E.path[3:] and tuple(E.path[:5])))
    outcome((size, what, n))


@job("sumk", shards=8)
def sumk():
    """the k sum against the direct average, for every combination of the arguments"""
    n, nk, nb = choose(2) + 1, choose(3) + 1, choose(2) + 1
    fnt, fld, hat, given = choose(3), choose(3), choose(3), choose(2)
    mu = pick([0, .6])
    wts = choose(2)
    mesh = mesh_of("im")
    names = ["up", "down"][:nb]
    blk = lambda seed: BlockGf(name_list=names, block_list=[sig(mesh, n, seed + i) for i in range(nb)], make_copies=True)
    S0, F = blk(0), blk(4)
    sk = SumkDiscrete(2, list(range(n)))
    check(sk.GFBlocIndices == list(range(n)), "structure")
    sk.resize_arrays(nk)
    check(sk.n_kpts() == nk and abs(sk.bz_weights.sum() - 1) < 1e-12, "default-weights")
    for k in range(nk):
        a = .4 * np.cos(np.arange(n * n).reshape(n, n) + 2 * k) + .2j * np.sin(np.arange(n * n).reshape(n, n) + k)
        sk.hopping[k] = a + a.conj().T
        sk.bz_points[k] = [.1 * k, .2 * k - .1]
    if wts:
        sk.bz_weights[...] = np.arange(1, nk + 1) / sum(range(1, nk + 1))
    if fnt == 0:
        arg, S = S0, lambda k, b: S0[b].data
    elif fnt == 1:
        arg, S = (lambda k: S0 * (1 + k[0])), lambda k, b: S0[b].data * (1 + sk.bz_points[k][0])
    else:
        arg, S = (lambda k, e: (S0 * k[1]) + n_blocks(S0) * [e]), lambda k, b: S0[b].data * sk.bz_points[k][1] + sk.hopping[k]
    f0 = [.1 * np.eye(n) + .05 * i for i in range(nb)]
    field, fref = [(None, lambda b: 0), (F, lambda b: F[b].data), (f0, lambda b: f0[names.index(b)])][fld]
    epsilon_hat, href = [(None, lambda e: e), (lambda e: 2 * e, lambda e: 2 * e), (lambda e: e @ e, lambda e: e @ e)][hat]
    res = blk(9) if given else None
    kw = {}
    if field is not None:
        kw["field"] = field
    if epsilon_hat:
        kw["epsilon_hat"] = epsilon_hat
    if given:
        kw["result"] = res
    s0 = [g.data.copy() for _, g in S0]
    with te.quiet():
        G = sk(arg, mu, **kw)
    check(not given or G is res, "sumk-result-not-used")
    z = np.array([complex(p.value) * np.eye(n) for p in mesh])
    for b in names:
        want = sum(sk.bz_weights[k] * np.linalg.inv(z + mu * np.eye(n) - fref(b) - href(sk.hopping[k]) - S(k, b)) for k in range(nk))
        check(near(G[b].data, want, 1e-9), "sumk", "n", n, "nk", nk, "sigma", fnt, "field", fld, "hat", hat, "mu", mu, "weights", wts)
    check(list(G.indices) == names and all(np.array_equal(g.data, s) for (_, g), s in zip(S0, s0)), "sumk-changed-arguments")
    check(raises(AssertionError, sk, BlockGf(name_list=names, block_list=[sig(mesh, n + 1) for _ in names])), "sumk-wrong-size-accepted")
    check(raises(AssertionError, sk, 3) and raises(AssertionError, sk, lambda a, b, c: S0) and raises(AssertionError, sk, S0, selected_blocks=("up",)), "sumk-wrong-argument-accepted")
    state((n, nk, nb, fnt, fld, hat, given, mu, wts))


def n_blocks(S):
    return len(list(S.indices))


@job("grid", shards=4)
def grid():
    """k grids of a lattice: a full period in every direction, shifted on request, and the sums over patches"""
    dim, norb = choose(3) + 1, choose(2) + 1
    npt = choose(4 if dim < 3 else 3) + 1
    hop = {tuple([0] * dim): .3 * np.eye(norb)}
    for i in range(dim):
        e = [0] * dim
        e[i] = 1
        t = (np.arange(norb * norb).reshape(norb, norb) + 1.) * (i + 1) + .5j * i
        hop[tuple(e)], hop[tuple(-x for x in e)] = t, t.conj().T
    L = TBLattice(np.eye(dim), hop, [(0, 0, 0)] * norb, ["o%d" % i for i in range(norb)])
    q = choose(3)
    Q = [None, [.25] * dim, np.arange(1., dim + 1) / 8][q]
    patch = None
    kind = choose(2 + (dim == 2))
    if kind == 2:
        polys = pick([[[(0., 0.), (.5, 0.), (.5, .5)]], [[(0., 0.), (.5, 0.), (.5, .5), (0., .5)]], [[(0., 0.), (.5, 0.), (.5, .5)], [(0., 0.), (-.5, 0.), (-.5, -.25), (-.5, -.5)]]])
        patch = BZPatch("p", [[np.array(v) for v in p] for p in polys])
        if Q is not None:
            raise Prune()
    sk = SumkDiscreteFromLattice(L, patch, npt)
    if kind == 1:
        sk.Recompute_Grid(npt + 1)
        npt += 1
    if Q is not None:
        sk.Recompute_Grid(npt, Q=Q)
    N = sk.n_kpts()
    check(abs(sk.bz_weights.sum() - 1) < 1e-12 and len(sk.bz_weights) == N and len(sk.hopping) == N, "grid-weights")
    if patch is None:
        check(N == npt**dim and np.allclose(sk.bz_weights, 1. / N), "grid-size", N, npt, dim)
        k = sk.bz_points - (0 if Q is None else np.array(Q))
        check(np.all(np.abs(k) <= .5 + 1e-12), "grid-range")
        first = k[0]
        seen = set()
        for x in k:
            y = (x - first) * npt
            check(np.allclose(y, np.rint(y), atol=1e-9), "grid-not-regular", x)
            seen.add(tuple(int(v) % npt for v in np.rint(y)))
        check(len(seen) == N, "grid-points-repeated", dim, npt)
    else:
        area = sum(tri_areas(p) for p in polys)
        check(abs(patch.weight - area) < 1e-12, "patch-area", patch.weight, area)
        ntri = sum(len(p) - 2 for p in polys)
        check(N == ntri * npt * npt, "patch-size", N)
        # affine functions are integrated exactly; every point lies inside its triangle
        want, i = np.zeros(2), 0
        for p in polys:
            for j in range(1, len(p) - 1):
                t = np.array([p[0], p[j], p[j + 1]])
                a = tri_areas([p[0], p[j], p[j + 1]])
                want += a / area * t.mean(axis=0)
                for x in sk.bz_points[i:i + npt * npt]:
                    c = np.linalg.lstsq(np.vstack([t.T, np.ones(3)]), np.append(x, 1.), rcond=None)[0]
                    check(np.all(c > -1e-9), "patch-point-outside", x, t)
                check(abs(sk.bz_weights[i:i + npt * npt].sum() - a / area) < 1e-12, "patch-weight")
                i += npt * npt
        check(np.allclose(sk.bz_weights @ sk.bz_points, want, atol=1e-12), "patch-mean", sk.bz_weights @ sk.bz_points, want)
    for x, h in zip(sk.bz_points, sk.hopping):
        w = sum(np.exp(2j * np.pi * np.dot(x, r)) * m for r, m in hop.items())
        check(near(h, w, 1e-12), "grid-hopping")
    c = copy.copy(sk)
    check(c.n_kpts() == N and (Q is not None or np.allclose(c.bz_points, sk.bz_points)), "grid-copy", c.n_kpts(), N)
    mesh = mesh_of("im")
    S = BlockGf(name_list=["a"], block_list=[sig(mesh, norb)])
    with te.quiet():
        G = sk(S, mu=.1)
    z = np.array([(complex(p.value) + .1) * np.eye(norb) for p in mesh])
    check(near(G["a"].data, sum(w * np.linalg.inv(z - h - S["a"].data) for w, h in zip(sk.bz_weights, sk.hopping)), 1e-9), "grid-sum")
    check(raises(AssertionError, SumkDiscreteFromLattice, L, None, 2, "Other") and raises(AssertionError, SumkDiscreteFromLattice, 3), "wrong-method-accepted")
    state((dim, norb, npt, q, kind, patch is not None and len(polys)))


def tri_areas(p):
    return sum(.5 * abs((p[j][0] - p[0][0]) * (p[j + 1][1] - p[0][1]) - (p[j][1] - p[0][1]) * (p[j + 1][0] - p[0][0])) for j in range(1, len(p) - 1))


if __name__ == "__main__":
    main()
