"""C48: tight-binding lattices, superlattices, k paths, readers."""
import copy, itertools, math, os, pickle, sys, tempfile
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(HERE)), "lib"))
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(HERE)), "standins_py"))
from pyex import *
import triqs_env as te
te.setup()
import numpy as np
from h5 import HDFArchive
from triqs.lattice.tight_binding import TBLattice, BravaisLattice, BrillouinZone, TightBinding
from triqs.lattice.super_lattice import TBSuperLattice
from triqs.lattice import utils, LatticePoint
from triqs.lattice.bz_patch import BZPatch

UNITS = {1: [[[1.0]], [[2.5]]], 2: [[[1.0, 0.0], [0.0, 1.0]], [[1.0, 0.3], [-0.2, 1.4]]], 3: [np.eye(3).tolist(), [[1.0, 1.0, 0.0], [0.5, 0.0, 0.5], [0.0, 1.5, 1.5]]]}
DISP = {1: [(0,), (1,), (2,)], 2: [(0, 0), (1, 0), (1, -1), (0, 2)], 3: [(0, 0, 0), (1, 0, 0), (0, 1, -1), (0, 0, 2)]}


def hopping(d, norb, which, real=False):
    """hermitian set of hoppings: which = subset of DISP[d]"""
    t = {}
    for n, r in enumerate(DISP[d]):
        if not which[n]:
            continue
        a = np.cos(np.arange(norb * norb) + n).reshape(norb, norb) + (0 if real else 1j * np.sin(2.0 * np.arange(norb * norb) + n + 1).reshape(norb, norb))
        if any(r):
            t[r] = a
            t[tuple(-x for x in r)] = a.conj().T
        else:
            t[r] = (a + a.conj().T) / 2
    return t


def positions(d, norb):
    return [(0.25 * i if d > 0 else 0, 0.1 * i if d > 1 else 0, 0.3 * i if d > 2 else 0) for i in range(norb)]


def bloch(t, k):
    return sum(v * np.exp(2j * np.pi * np.dot(k, r)) for r, v in t.items())


@job("tblattice", shards=2)
def tblattice():
    d = 1 + choose(3)
    units = pick(UNITS[d])
    norb = 1 + choose(3)
    t = hopping(d, norb, [flip() for r in DISP[d]], flip())
    named = flip()
    names = ["o%d" % i for i in range(norb)]
    kw = dict(orbital_positions=positions(d, norb))
    if named:
        kw["orbital_names"] = names
    kw["hopping" if flip() else "hoppings"] = t
    t0 = {k: v.copy() for k, v in t.items()}
    L = TBLattice(units, **kw)
    step()
    state((d, str(units), norb, sorted(t), named))
    check(set(L.hoppings) == set(t) and all(near(L.hoppings[k], t[k]) for k in t), "hoppings", "TBLattice.hoppings: %s instead of %s" % (L.hoppings, t))
    check(set(t) == set(t0) and all((t[k] == t0[k]).all() for k in t), "argument", "the argument is changed")
    check(L.ndim == d and near(L.units, units), "units", "units, ndim: %s, %d" % (L.units, L.ndim))
    check(L.n_orbitals == norb and near(L.orbital_positions, positions(d, norb)), "orbitals", "orbital positions %s" % (L.orbital_positions,))
    check(list(L.orbital_names) == (names if named else [""] * norb), "names", "orbital names %s" % (L.orbital_names,))
    for k in [(0.1, 0.37, 0.23), (0.5, 0.5, 0.0)]:
        if t:
            check(near(L.fourier(np.array(k[:d])), bloch(t, k[:d])), "fourier", "fourier(%s)" % (k,))
            check(near(L.dispersion(np.array(k[:d])), np.linalg.eigvalsh(bloch(t, k[:d]))), "dispersion", "dispersion(%s)" % (k,))
    x = [2, -1, 3][:d]
    check(near(L.lattice_to_real_coordinates(np.array(x))[:d], np.array(x) @ np.array(units)), "real-coordinates", "lattice_to_real_coordinates")
    with HDFArchive("L", "w") as ar:
        ar["L"] = L
    R = HDFArchive("L", "r")["L"]
    check(R == L and isinstance(R, TBLattice), "archive", "a lattice read back differs")
    check(list(R.orbital_names) == list(L.orbital_names) and near(R.orbital_positions, L.orbital_positions), "archive", "orbitals of a lattice read back differ")
    if t:
        u = {k: v.copy() for k, v in t.items()}
        u[next(iter(u))] = u[next(iter(u))] + (np.eye(norb) if not any(next(iter(u))) else 0)
        if not any(next(iter(u))):
            check(not (TBLattice(units, u, positions(d, norb)) == TBLattice(units, t, positions(d, norb))), "equality", "lattices of different hoppings are equal")
    check(not (L == 3), "equality", "equal to a number")
    m = L.get_kmesh([3] * d + [1] * (3 - d))
    check(len(m) == 3 ** d, "kmesh", "get_kmesh")
    m = L.get_rmesh([2] * d + [1] * (3 - d))
    check(len(m) == 2 ** d, "rmesh", "get_rmesh")
    check(len(TBLattice(units).hoppings) == 0, "default", "hoppings of a lattice without hoppings: a default argument is shared")


def supercells(d):
    if d == 1:
        return [[[a]] for a in (-3, -2, -1, 1, 2, 3)]
    if d == 2:
        return [[[a, b], [c_, e]] for a, b, c_, e in itertools.product(tier((-1, 0, 1, 2), (-2, -1, 0, 1, 2, 3)), repeat=4) if a * e - b * c_ != 0]
    r = []
    rows = list(itertools.product((-1, 0, 1), repeat=3)) + [(2, 0, 0), (0, 2, 0), (0, 1, 2)]
    for n, m in enumerate(itertools.product(rows, repeat=3)):
        k = abs(int(round(np.linalg.det(np.array(m)))))
        if 0 < k <= 4 and n % tier(23, 2) == 0:
            r.append([list(x) for x in m])
    return r


_base = {}


def base(d, norb, u=1):
    if (d, norb, u) not in _base:
        t = hopping(d, norb, [True] * len(DISP[d]))
        _base[d, norb, u] = TBLattice(UNITS[d][u], t, positions(d, norb), ["o%d" % i for i in range(norb)]), t
    return _base[d, norb, u]


def examine(SL, L, t, M, sites, norb, removed=False):
    """M: supercell vectors as rows; sites: expected cluster sites or None"""
    d = L.ndim
    M = np.array(M)
    N = abs(int(round(np.linalg.det(M))))
    got = [tuple(int(x) for x in s) for s in SL.cluster_sites()]
    tag = "supercell %s" % M.tolist()
    Mi = np.linalg.inv(M)
    # inequivalent: no two sites differ by a superlattice vector
    inequiv = all(np.abs((np.subtract(a, b) @ Mi) - np.rint(np.subtract(a, b) @ Mi)).max() > 1e-6 for a, b in itertools.combinations(got, 2))
    if not check(len(got) == N == SL.Ncluster_sites and inequiv, "cluster-sites", "%s: cluster sites %s" % (tag, got)):
        return
    if sites is None:
        check(all((np.array(s) @ Mi > -1e-9).all() and (np.array(s) @ Mi < 1 - 1e-9).all() for s in got), "cluster-box", "%s: cluster sites %s are not in [0,1[" % (tag, got))
    else:
        check(got == [tuple(s) for s in sites], "cluster-given", "%s: cluster sites %s instead of %s" % (tag, got, sites))
    # coordinates
    seen = {}
    for x in itertools.product(range(-2, 3), repeat=d):
        R, a = SL.change_coordinates_L_to_SL(np.array(x))
        R = tuple(int(i) for i in R)
        back = np.array(R) @ M + np.array(got[a])
        check((back == np.array(x)).all(), "L-to-SL", "%s: point %s -> %s" % (tag, x, (R, a)))
        check((np.array(SL.change_coordinates_SL_to_L(R, a)) == np.array(x)).all(), "SL-to-L", "%s: %s -> %s" % (tag, (R, a), SL.change_coordinates_SL_to_L(R, a)))
        check((R, a) not in seen, "one-to-one", "%s: two points have the coordinates %s" % (tag, (R, a)))
        seen[R, a] = x
    idx = {}
    for s in range(N):
        for o in range(norb):
            p = SL.pack_index_site_orbital(s, o)
            check(0 <= p < N * norb and p not in idx and tuple(SL.unpack_index_site_orbital(p)) == (s, o), "pack", "%s: pack(%d,%d) = %d" % (tag, s, o, p))
            idx[p] = (s, o)
    check(SL.n_orbitals == N * norb, "n-orbitals", "%s: %d orbitals" % (tag, SL.n_orbitals))
    check(near(SL.units, M @ np.array(L.units)), "SL-units", "%s: units %s" % (tag, SL.units))
    for p, (s, o) in idx.items():
        want = np.zeros(3)
        want[:d] = np.array(got[s]) @ np.array(L.units)
        want += np.array(L.orbital_positions[o])
        check(near(SL.orbital_positions[p], want), "SL-positions", "%s: position of orbital %d (site %d, orbital %d)" % (tag, p, s, o))
        name = str(s + 1) if norb == 1 else L.orbital_names[o] if N == 1 else "%d_%s" % (s + 1, L.orbital_names[o])
        check(SL.orbital_names[p] == name, "SL-names", "%s: name of orbital %d (site %d, orbital %d): %s" % (tag, p, s, o, SL.orbital_names[p]))
    # hoppings: all pairs of sites and displacements
    ref = {}
    for r, v in t.items():
        for s in range(N):
            for b in range(N):
                x = (np.array(got[s]) + np.array(r) - np.array(got[b])) @ Mi
                if np.abs(x - np.rint(x)).max() < 1e-6:
                    R = tuple(int(i) for i in np.rint(x))
                    m = ref.setdefault(R, np.zeros((N * norb, N * norb), dtype=complex))
                    for i in range(norb):
                        for j in range(norb):
                            m[[p for p, q in idx.items() if q == (s, i)][0], [p for p, q in idx.items() if q == (b, j)][0]] += v[i, j]
    if removed:
        z = (0,) * d
        ref[z] = 0 * next(iter(ref.values()))
    h = {tuple(int(i) for i in R): v for R, v in SL.hoppings.items()}
    ks = set(h) | set(ref)
    for R in ks:
        a = h.get(R, 0 * next(iter(ref.values())))
        check(near(a, ref.get(R, 0 * a)), "SL-hoppings", "%s: hopping to %s is %s instead of %s" % (tag, R, a, ref.get(R)))
    # spectrum
    if not removed:
        K = np.array([0.13, 0.29, 0.41])[:d]
        ks = {}
        for n in itertools.product(range(N), repeat=d):
            k = (np.array(n) + K) @ Mi.T
            ks.setdefault(tuple(np.round(np.mod(k, 1.0), 6) % 1.0), k)
        if len(ks) == N:
            e = sorted(x for k in ks.values() for x in np.linalg.eigvalsh(bloch(t, k)))
            check(near(np.sort(SL.dispersion(K)), e, 1e-7), "SL-spectrum", "%s: the spectrum is not the folded one" % tag)
            count("spectra")


@job("supercell-2d", shards=8)
def supercell2():
    M = pick(supercells(2))
    norb = 1 + choose(2)
    removed = flip()
    L, t = base(2, norb)
    kw = {}
    if removed:
        kw["remove_internal_hoppings"] = True
    arg = [M, np.array(M), tuple(map(tuple, M))][choose(3)] if norb == 1 else M
    SL = TBSuperLattice(L, arg, **kw)
    step()
    state((str(M), norb, removed))
    examine(SL, L, t, M, None, norb, removed)
    sample("supercell %s, %d orbitals: %d sites" % (M, norb, SL.Ncluster_sites))


@job("supercell-1d3d", shards=8)
def supercell13():
    M = pick(supercells(1) + supercells(3))
    d = len(M)
    norb = 1 + choose(2 if d == 1 else 1)
    u = choose(2 if d == 1 else 1)
    removed = flip() if d == 1 else False
    L, t = base(d, norb, 1 - u)
    SL = TBSuperLattice(L, M, remove_internal_hoppings=removed)
    step()
    state((str(M), norb, u, removed))
    examine(SL, L, t, M, None, norb, removed)


@job("supercell-sites", shards=8)
def sites():
    """cluster sites given by the user: any order, any representative, any container"""
    d, M = pick([(1, [[2]]), (1, [[-3]]), (2, [[1, 1], [1, -1]]), (2, [[2, 0], [0, 1]]), (2, [[2, 1], [0, 2]]), (2, [[2, 0], [1, -2]]), (3, [[1, 1, 0], [1, -1, 0], [0, 0, 1]])])
    norb = 1 + choose(2)
    L, t = base(d, norb)
    auto = [tuple(int(x) for x in s) for s in TBSuperLattice(L, M).cluster_sites()]
    s = permutation(auto)
    n = choose(len(s) + 1)
    if n < len(s):
        s[n] = tuple(int(x) for x in np.array(s[n]) + np.array(M)[choose(d)] * (1 if flip() else -1))
    form = choose(3)
    arg = [list(s), [list(x) for x in s], np.array(s)][form]
    SL = TBSuperLattice(L, M, cluster_sites=arg)
    step()
    state((str(M), norb, tuple(s), form))
    examine(SL, L, t, M, s, norb)
    check(raises(Exception, TBSuperLattice, L, M, list(s[:-1])), "sites-refused", "too few cluster sites are not refused")


@job("supercell-other")
def other():
    d, M = pick([(1, [[2]]), (2, [[1, 1], [1, -1]]), (2, [[2, 1], [0, 2]])])
    norb = 1 + choose(2)
    how = choose(6)
    L, t = base(d, norb)
    removed = flip()
    SL = TBSuperLattice(L, M, remove_internal_hoppings=removed)
    step()
    state((str(M), norb, how, removed))
    if how == 0:
        for C in (copy.copy(SL), copy.deepcopy(SL), pickle.loads(pickle.dumps(SL))):
            check(type(C) is TBSuperLattice and C == SL, "copy", "a copy of a superlattice differs")
            examine(C, L, t, M, None, norb, removed)
    elif how == 1:
        # any function of the displacement can be folded
        f = {r: v * (2 + n) for n, (r, v) in enumerate(hopping(d, norb, [True] * len(DISP[d])).items())}
        F = SL.fold(f)
        check(all(near(F[tuple(R)], v) for R, v in TBSuperLattice.fold(SL, f).items()), "fold", "fold is not a function of its argument")
        g = [tuple(int(x) for x in s) for s in SL.cluster_sites()]
        tot = sum(v.sum() for v in F.values())
        check(abs(tot - len(g) * sum(v.sum() for v in f.values())) < 1e-9, "fold-sum", "folding loses terms")
        Z = SL.fold(f, create_zero=lambda: np.full((SL.n_orbitals,) * 2, 7.0 + 0j))
        check(set(Z) == set(F) and all(near(Z[R], F[R] + 7.0) for R in F), "fold-zero", "create_zero is not used as the start of the sum")
        I = SL.fold(f, True)
        z = (0,) * d
        check(near(I[z], 0 * F[z]) and all(near(I[R], F[R]) for R in F if tuple(R) != z), "fold-internal", "fold with remove_internal")
    elif how == 2:
        check(raises(ValueError, TBSuperLattice, 3, M), "refused", "a base that is no lattice is not refused")
        check(raises(ValueError, TBSuperLattice, L, np.eye(d + 1)), "refused", "wrong shape is not refused")
        check(raises(AssertionError, TBSuperLattice, L, np.zeros((d, d), dtype=int)), "refused", "dependent vectors are not refused")
    elif how == 3:
        # a superlattice of a superlattice is the superlattice of the product
        M2 = [[2]] if d == 1 else pick([[[1, 0], [0, 2]], [[1, 1], [-1, 1]]])
        A = TBSuperLattice(TBSuperLattice(L, M), M2)
        P = np.array(M2) @ np.array(M)
        K = np.array([0.13, 0.29])[:d]
        check(A.n_orbitals == norb * abs(int(round(np.linalg.det(P)))) and near(A.units, P @ np.array(L.units)), "twice", "superlattice of a superlattice: units or number of orbitals")
        check(near(np.sort(A.dispersion(K)), np.sort(TBSuperLattice(L, P.tolist()).dispersion(K)), 1e-7), "twice", "superlattice of a superlattice: spectrum")
    elif how == 4:
        check(str(M[0][0]) in repr(SL) and "SuperLattice" in repr(SL), "repr", "repr ", repr(SL))
    else:
        m0 = np.array(M)
        S2 = TBSuperLattice(L, m0)
        m0[0, 0] = 17
        examine(S2, L, t, M, None, norb)
        check(set(L.hoppings) == set(t) and all(near(L.hoppings[r], t[r]) for r in t), "base", "building a superlattice changes the base lattice")


@job("kpath", shards=6)
def kpath():
    P = [np.zeros(3), np.array([0.5, 0.5, 0.0]), np.array([0.5, 0.5, 0.5]), np.array([-0.25, 0.0, 1.0])]
    n = 1 + choose(3)
    idx = [(choose(4), choose(4)) for i in range(n)] if n < 3 else [(0, 1), (choose(4), choose(4)), (2, 0)]
    num = pick([None, 2, 3, 5])
    bz = pick([None, 0, 1])
    rel = pick([None, True, False])
    form = choose(2)
    segs = [(list(P[a]), tuple(P[b])) if form else (P[a].copy(), P[b].copy()) for a, b in idx]
    B = None if bz is None else BrillouinZone(BravaisLattice(UNITS[3][bz]))
    kw = {}
    if num is not None:
        kw["num"] = num
    if B is not None:
        kw["bz"] = B
    if rel is not None:
        kw["relative_coordinates"] = rel
    k, dist, ticks = utils.k_space_path(segs, **kw)
    num = 101 if num is None else num
    cell = np.eye(3) if B is None else np.array(B.units)
    step()
    state((tuple(idx), num, bz, rel))
    check(k.shape == (n * num, 3) and dist.shape == (n * num,) and ticks.shape == (n + 1,), "kpath-shape", "shapes %s %s %s" % (k.shape, dist.shape, ticks.shape))
    start = 0.0
    for s, (a, b) in enumerate(idx):
        for i in range(num):
            w = i / (num - 1)
            v = P[a] * (1 - w) + P[b] * w
            ab = v @ cell
            check(near(k[s * num + i], ab if rel is False else v), "kpath-vectors", "segment %d, vector %d: %s" % (s, i, k[s * num + i]))
            check(abs(dist[s * num + i] - start - w * np.linalg.norm((P[b] - P[a]) @ cell)) < 1e-9, "kpath-distance", "segment %d, vector %d: distance %g" % (s, i, dist[s * num + i]))
        check(abs(ticks[s] - start) < 1e-9, "kpath-ticks", "tick %d: %g" % (s, ticks[s]))
        start += np.linalg.norm((P[b] - P[a]) @ cell)
    check(abs(ticks[n] - start) < 1e-9, "kpath-ticks", "last tick")
    if not form:
        check(all((x == P[a]).all() and (y == P[b]).all() for (x, y), (a, b) in zip(segs, idx)), "kpath-argument", "the argument is changed")


@job("wannier90", shards=2)
def wannier():
    nw = 1 + choose(3)
    half = pick([[(1, 0, 0)], [(0, 1, -1), (2, 0, 1)], [], [(i, j, 1) for i in range(-1, 2) for j in range(-1, 2)]])
    degs = choose(3)
    spin, local, unit = flip(), flip(), pick(["Ang", "Bohr", "Furlong"])
    vec = UNITS[3][choose(2)]
    Rs = [tuple(-x for x in r) for r in half][::-1] + [(0, 0, 0)] + half
    H = {}
    for n, r in enumerate(half + [(0, 0, 0)]):
        a = np.round(np.cos(np.arange(nw * nw) * 0.9 + n).reshape(nw, nw) + 1j * np.sin(np.arange(nw * nw) + 0.5 * n).reshape(nw, nw), 3)
        if any(r):
            H[r], H[tuple(-x for x in r)] = a, a.conj().T
        else:
            H[r] = (a + a.conj().T) / 2
    deg = {r: 1 if degs == 0 else 2 if degs == 1 else 1 + sum(abs(x) for x in r) for r in Rs}
    step()
    state((nw, len(Rs), degs, spin, local, unit, str(vec)))
    with tempfile.TemporaryDirectory() as d:
        with open(d + "/x_hr.dat", "w") as f:
            f.write(" written today\n%12d\n%12d\n" % (nw, len(Rs)))
            for i in range(0, len(Rs), 15):
                f.write("".join("%5d" % deg[r] for r in Rs[i:i + 15]) + "\n")
            for r in Rs:
                for nn in range(nw):
                    for m in range(nw):
                        f.write("%5d%5d%5d%5d%5d%15.8f%15.8f\n" % (r + (m + 1, nn + 1, H[r][m, nn].real, H[r][m, nn].imag)))
        with open(d + "/x.wout", "w") as f:
            f.write(" banner\n\n Lattice Vectors (%s)\n" % unit)
            for i in range(3):
                f.write("  a_%d %12.6f%12.6f%12.6f\n" % ((i + 1,) + tuple(vec[i])))
            f.write("\n Reciprocal-Space Vectors (Ang^-1)\n b_1 9 9 9\n")
        dim = nw * (2 if spin else 1)
        add = np.diag(np.arange(dim) + 0.5) if local else None
        args = dict(seed="x", path=d + "/")
        if spin:
            args["extend_to_spin"] = True
        if local:
            args["add_local"] = add
        if unit == "Furlong":
            check(raises(NotImplementedError, lambda: utils.TB_from_wannier90(**args)), "w90-unit", "unknown unit is not refused")
            return
        T = utils.TB_from_wannier90(**args)
        got, n = utils.parse_hopping_from_wannier90_hr_dat(d + "/x_hr.dat")
    check(n == nw and set(got) == set(H), "w90-parse", "number of orbitals or displacements")
    check(all(near(got[r], H[r] / deg[r]) for r in Rs), "w90-parse", "H_mn(R) read is not H_mn(R)/deg(R) of the file")
    check(near(T.units, np.array(vec) * (1.0 if unit == "Ang" else 0.529177210903), 1e-8), "w90-units", "units %s" % (T.units,))
    check(T.n_orbitals == dim, "w90-orbitals", "%d orbitals" % T.n_orbitals)
    for r in Rs:
        want = H[r] / deg[r]
        if spin:
            w = np.zeros((dim, dim), dtype=complex)
            w[:nw, :nw] = w[nw:, nw:] = want
            want = w
        if local and not any(r):
            want = want + add
        check(near(T.hoppings[r], want), "w90-hoppings", "hopping %s: %s instead of %s" % (r, T.hoppings[r], want))


@job("pythtb")
def pythtb():
    norb = 1 + choose(3)
    n = choose(4)
    hops = []
    for i in range(n):
        a = choose(norb)
        b, r = pick([((a + 1) % norb, (0, 0, 0)), (a, (1, 0, 0)), ((a + 1) % norb, (1, 0, 0)), (norb - 1, (0, -1, 1)), (0, (-1, 0, 0))])
        if not any(r) and a == b:
            continue
        hops.append([(1 + 0.5 * i) * np.exp(0.3j * i), a, b, np.array(r)])

    class Model:
        _site_energies = np.arange(norb) * 0.5 - 1
        _hoppings = hops

        def get_num_orbitals(self):
            return norb

        def get_lat(self):
            return np.array(UNITS[3][1])

        def get_orb(self):
            return np.array(positions(3, norb))
    step()
    state((norb, str(hops)))
    T = utils.TB_from_pythTB(Model())
    ref = {(0, 0, 0): np.diag(Model._site_energies).astype(complex)}
    for t, a, b, r in hops:
        for key, i, j, v in ((tuple(r), a, b, t), (tuple(-r), b, a, np.conj(t))):
            ref.setdefault(key, np.zeros((norb, norb), dtype=complex))[i, j] += v
    check(set(T.hoppings) == set(ref) and all(near(T.hoppings[r], ref[r]) for r in ref), "pythtb", "hoppings %s instead of %s" % (T.hoppings, ref))
    check(near(T.units, UNITS[3][1]) and near(T.orbital_positions, positions(3, norb)), "pythtb", "units or positions")


@job("point", shards=2)
def point():
    d = 1 + choose(3)
    bl = BravaisLattice(UNITS[d][1])
    U = np.zeros((3, 3))
    U[:d, :d] = UNITS[d][1]

    def val(i):
        return np.array(i) @ U[:d]
    i1 = [pick([0, 1, -2])] + [1, -3][:d - 1]
    i2 = [pick([0, 2, -1])] + [0, 2][:d - 1]
    p, q = LatticePoint(list(i1), bl), LatticePoint(list(i2), bl)
    x = np.array([0.5, -1.0, 2.0])
    if flip():
        p.value
    step()
    state((d, tuple(i1), tuple(i2)))
    a, b = val(i1), val(i2)
    for nm, f, g, point_result in [("p+q", lambda p, q: p + q, a + b, True), ("p-q", lambda p, q: p - q, a - b, True), ("-p", lambda p, q: -p, -a, True), ("-p+q", lambda p, q: -p + q, b - a, True),
                                   ("p+x", lambda p, q: p + x, a + x, False), ("p-x", lambda p, q: p - x, a - x, False), ("x+p", lambda p, q: x + p, a + x, False), ("x-p", lambda p, q: x - p, x - a, False),
                                   ("2*p", lambda p, q: 2 * p, 2 * a, False), ("p*2", lambda p, q: p * 2.5, a * 2.5, False), ("p/4", lambda p, q: p / 4, a / 4, False), ("1.5+p", lambda p, q: 1.5 + p, a + 1.5, False),
                                   ("1.5-p", lambda p, q: 1.5 - p, 1.5 - a, False), ("p+2*q", lambda p, q: p + 2 * q, a + 2 * b, False), ("value", lambda p, q: p.value, a, False), ("array", lambda p, q: np.array(p), a, False),
                                   ("float array", lambda p, q: np.array(p, dtype=float), a, False), ("items", lambda p, q: np.array([p[i] for i in range(d)]), a[:d], False)]:
        r = f(p, q)
        check(isinstance(r, LatticePoint) == point_result, "point-type:" + nm, "%s is a %s" % (nm, type(r)))
        v = r.value if isinstance(r, LatticePoint) else r
        check(near(v, g), "point-value:" + nm, "%s of %s, %s is %s instead of %s" % (nm, i1, i2, v, g))
        if point_result:
            check(r.lattice is bl, "point-lattice", "the lattice of " + nm)
    check(list(p.index) == i1 and list(q.index) == i2 and near(p.value, a) and near(q.value, b), "point-operand", "arithmetic changes a point")
    check(len(p) == d, "point-len", "len")


@job("patch")
def patch():
    polys = [[(0, 0), (1, 0), (0, 1)], [(0, 0), (1, 0), (1, 1), (0, 1)], [(1, 1), (1, 2), (0, 3), (-1, 2), (-1, 1)], [(0, 0), (0, 2), (3, 0)], [(0.5, 0.5), (0.5, -0.5), (-0.5, -0.5), (-0.5, 0.5)]]
    sel = [p for p in polys if flip()]
    B = BZPatch("P", sel)
    step()
    state(str(sel))

    def area(p):
        return abs(sum(p[i][0] * p[(i + 1) % len(p)][1] - p[(i + 1) % len(p)][0] * p[i][1] for i in range(len(p)))) / 2
    check(abs(B.weight - sum(map(area, sel))) < 1e-12 and abs(sum(B._weights) - B.weight) < 1e-12, "patch-weight", "weight %g of the polygons %s" % (B.weight, sel))
    t = B._triangles
    check(len(t) == 3 * sum(len(p) - 2 for p in sel) == 3 * len(B._weights), "patch-triangles", "number of triangles")
    for i, w in enumerate(B._weights):
        check(abs(area(t[3 * i:3 * i + 3]) - w) < 1e-12, "patch-triangle", "triangle %d: %s, weight %g" % (i, t[3 * i:3 * i + 3], w))


main()
