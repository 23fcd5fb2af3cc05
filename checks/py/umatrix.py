"""C42: interaction matrices are the Coulomb integrals.
Oracles: angular integrals by exact numerical quadrature of spherical harmonics and of the polynomials the cubic harmonics are
named after; Clebsch-Gordan coefficients by the ladder construction; direct sums for transformations."""
import itertools, math, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(HERE)), "lib"))
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(HERE)), "standins_py"))
from pyex import *
import triqs_env as te
te.setup()
import numpy as np
from triqs.operators.util.U_matrix import *
from triqs.operators.util import U_matrix as M

LMAX = 3

# ------------------------------------------------------------------ spherical harmonics on an exact quadrature grid
NT, NP = 16, 32
_x, _w = np.polynomial.legendre.leggauss(NT)
_phi = 2 * np.pi * np.arange(NP) / NP
CT = np.repeat(_x, NP)
PHI = np.tile(_phi, NT)
W = np.repeat(_w, NP) * 2 * np.pi / NP
ST = np.sqrt(1 - CT ** 2)
X, Y, Z = ST * np.cos(PHI), ST * np.sin(PHI), CT


def legendre_m(l, m):
    """associated Legendre function with Condon-Shortley phase, m >= 0, by differentiating (x^2-1)^l"""
    p = np.polynomial.Polynomial([-1, 0, 1]) ** l
    p = p.deriv(l + m) if l + m > 0 else p
    return (-1) ** m * ST ** m * p(CT) / (2 ** l * math.factorial(l))


_Y = {}


def sph(l, m):
    if (l, m) not in _Y:
        a = abs(m)
        y = math.sqrt((2 * l + 1) / (4 * math.pi) * math.factorial(l - a) / math.factorial(l + a)) * legendre_m(l, a) * np.exp(1j * a * PHI)
        _Y[l, m] = y if m >= 0 else (-1) ** a * y.conj()
    return _Y[l, m]


def multipole(fs, k):
    """4 pi/(2k+1) sum_q <a|Y_kq|c> <b|Y_kq^*|d> for the functions fs on the grid, as tensor [a,b,c,d]"""
    n = len(fs)
    F = np.array(fs)
    r = np.zeros((n,) * 4, dtype=complex)
    for q in range(-k, k + 1):
        y = sph(k, q)
        A = np.einsum("ax,cx->ac", F.conj() * (W * y), F)
        B = np.einsum("ax,cx->ac", F.conj() * (W * y.conj()), F)
        r += 4 * math.pi / (2 * k + 1) * np.einsum("ac,bd->abcd", A, B)
    return r


_mp = {}


def spherical_multipole(l, k):
    if (l, k) not in _mp:
        _mp[l, k] = multipole([sph(l, m) for m in range(-l, l + 1)], k)
    return _mp[l, k]


POLY = {"s": lambda x, y, z: 1 + 0 * x, "x": lambda x, y, z: x, "y": lambda x, y, z: y, "z": lambda x, y, z: z,
        "xy": lambda x, y, z: x * y, "yz": lambda x, y, z: y * z, "xz": lambda x, y, z: x * z, "x^2-y^2": lambda x, y, z: x * x - y * y,
        "z^2": lambda x, y, z: 3 * z * z - 1, "x(x^2-3y^2)": lambda x, y, z: x * (x * x - 3 * y * y), "z(x^2-y^2)": lambda x, y, z: z * (x * x - y * y),
        "xz^2": lambda x, y, z: x * (5 * z * z - 1), "z^3": lambda x, y, z: z * (5 * z * z - 3), "yz^2": lambda x, y, z: y * (5 * z * z - 1),
        "xyz": lambda x, y, z: x * y * z, "y(3x^2-y^2)": lambda x, y, z: y * (3 * x * x - y * y)}
NAMES = {(0, "triqs"): ["s"], (1, "triqs"): ["x", "y", "z"], (2, "triqs"): ["xy", "yz", "z^2", "xz", "x^2-y^2"],
         (3, "triqs"): ["x(x^2-3y^2)", "z(x^2-y^2)", "xz^2", "z^3", "yz^2", "xyz", "y(3x^2-y^2)"],
         (1, "wannier90"): ["z", "x", "y"], (2, "wannier90"): ["z^2", "xz", "yz", "x^2-y^2", "xy"],
         (2, "wien2k"): ["z^2", "x^2-y^2", "xy", "yz", "xz"]}
for l in range(4):
    NAMES[l, "vasp"] = NAMES[l, "triqs"]
for l in (1, 2):
    NAMES[l, "qe"] = NAMES[l, "wannier90"]


def cubic(name):
    f = POLY[name](X, Y, Z)
    return f / math.sqrt(np.sum(W * f * f))


def cg_table(j1, j2):
    """<j1 m1 j2 m2|j m> by lowering from the stretched state"""
    d1, d2 = 2 * j1 + 1, 2 * j2 + 1

    def lower(v):
        r = np.zeros_like(v)
        for a in range(d1):
            for b in range(d2):
                m1, m2 = a - j1, b - j2
                if a > 0:
                    r[a - 1, b] += math.sqrt(j1 * (j1 + 1) - m1 * (m1 - 1)) * v[a, b]
                if b > 0:
                    r[a, b - 1] += math.sqrt(j2 * (j2 + 1) - m2 * (m2 - 1)) * v[a, b]
        return r
    t = {}
    for j in range(j1 + j2, abs(j1 - j2) - 1, -1):
        # the state |j j>: in the subspace m1+m2 = j orthogonal to all states of larger j
        idx = [(a, b) for a in range(d1) for b in range(d2) if a - j1 + b - j2 == j]
        span = [np.array([t[jj, j][i] for i in idx]) for jj in range(j + 1, j1 + j2 + 1)]
        A = np.array(span).reshape(len(span), len(idx))
        u, s, vh = np.linalg.svd(A) if len(span) else (None, None, np.eye(len(idx)))
        v = vh[-1]
        top = max(range(len(idx)), key=lambda n: idx[n][0])
        v = v * np.sign(v[top])
        st = np.zeros((d1, d2))
        for i, x in zip(idx, v):
            st[i] = x
        t[j, j] = st
        for m in range(j, -j, -1):
            st = lower(st)
            st /= math.sqrt(j * (j + 1) - m * (m - 1))
            t[j, m - 1] = st
    return t


@job("three-j", shards=4)
def three_j():
    jm = tier(3, 5)
    j1, j2 = choose(jm + 1), choose(jm + 1)
    t = cg_table(j1, j2)
    for j3 in range(0, j1 + j2 + 2):
        for m1, m2, m3 in itertools.product(range(-j1 - 1, j1 + 2), range(-j2 - 1, j2 + 2), range(-j3 - 1, j3 + 2)):
            ok = (j3, m3) in t and abs(m1) <= j1 and abs(m2) <= j2 and abs(m3) <= j3
            cg = t[j3, m3][m1 + j1, m2 + j2] if ok else 0.0
            got = clebsch_gordan((j1, m1), (j2, m2), (j3, m3))
            step()
            state((j1, m1, j2, m2, j3, m3))
            check(abs(got - cg) < 1e-10, "clebsch-gordan", "<%d %d %d %d|%d %d> = %.12g instead of %.12g" % (j1, m1, j2, m2, j3, m3, got, cg))
            ok = (j3, -m3) in t and abs(m1) <= j1 and abs(m2) <= j2 and abs(m3) <= j3
            tj = (-1) ** (j1 - j2 - m3) / math.sqrt(2 * j3 + 1) * t[j3, -m3][m1 + j1, m2 + j2] if ok else 0.0
            got = three_j_symbol((j1, m1), (j2, m2), (j3, m3))
            check(abs(got - tj) < 1e-10, "three-j", "(%d %d; %d %d; %d %d) = %.12g instead of %.12g" % (j1, m1, j2, m2, j3, m3, got, tj))


@job("angular", shards=4)
def angular():
    l = choose(LMAX + 1)
    m1 = choose(2 * l + 1) - l
    for k in range(0, 2 * l + 3):
        # for k even and at most 2l the tensor of the integral, 0 otherwise
        ref = spherical_multipole(l, k)
        for m2, m3, m4 in itertools.product(range(-l, l + 1), repeat=3):
            got = angular_matrix_element(l, k, m1, m2, m3, m4)
            want = ref[m1 + l, m2 + l, m3 + l, m4 + l]
            step()
            state((l, k, m1, m2, m3, m4))
            check(abs(got - want) < 1e-10, "angular", "angular_matrix_element(%d,%d,%d,%d,%d,%d) = %.12g, the integral is %.12g" % (l, k, m1, m2, m3, m4, got, want.real))


FALPHA = [0.0, 1.0, -0.5, 2.25]


def rotation(l, which):
    """unitary matrices of the representation l, and others"""
    d = 2 * l + 1
    m = np.arange(-l, l + 1)
    Lz = np.diag(m).astype(complex)
    Lp = np.zeros((d, d), dtype=complex)
    for i in range(d - 1):
        Lp[i + 1, i] = math.sqrt(l * (l + 1) - m[i] * (m[i] + 1))
    Lx, Ly = (Lp + Lp.conj().T) / 2, (Lp - Lp.conj().T) / 2j

    def ex(H, a):
        w, v = np.linalg.eigh(H)
        return (v * np.exp(-1j * a * w)) @ v.conj().T
    return [lambda: ex(Lz, 0.7), lambda: ex(Lx, 0.4), lambda: ex(Ly, 1.3), lambda: ex(Lx + 0.3 * Ly - Lz, 2.1), lambda: np.eye(d, dtype=complex)][which]()


def direct(U, T):
    """H = 1/2 sum U a+a+aa with a+_j = sum_i conj(T_ij) b+_i"""
    C = T.conj()
    U = np.tensordot(C, U, (1, 0))
    U = np.moveaxis(np.tensordot(C, U, (1, 1)), 0, 1)
    U = np.moveaxis(np.tensordot(T, U, (1, 2)), 0, 2)
    return np.moveaxis(np.tensordot(T, U, (1, 3)), 0, 3)


@job("slater", shards=8)
def slater():
    c = choose(4 * (LMAX + 1))
    l, basis = LMAX - c // 4, ["spherical", "cubic", "other", "unset"][c % 4]
    alpha = FALPHA if l < 2 or tier(False, True) else [0.0, 1.0, -0.5] if l == 2 else [0.0, 1.5]
    F = [pick(alpha[1:])] + [pick(alpha) for i in range(l)]
    T = None
    sp = [sph(l, m) for m in range(-l, l + 1)]
    if basis == "cubic":
        fs = [cubic(n) for n in NAMES[l, "triqs"]]
    elif basis == "other":
        T = rotation(l, choose(5 if l < 3 else tier(2, 5)))
        fs = [sum(T[i, j] * sp[j] for j in range(2 * l + 1)) for i in range(2 * l + 1)]
    else:
        fs = sp
    how = choose(3) if l < 2 else sum(map(bool, F)) % 3
    arg = [list(F), np.array(F), tuple(F)][how]
    kw = dict(radial_integrals=arg)
    if basis != "unset":
        kw["basis"] = basis
    if T is not None:
        kw["T"] = T.copy()
    U = U_matrix_slater(l, **kw)
    ref = sum(f * (multipole(fs, 2 * i) if basis in ("cubic", "other") else spherical_multipole(l, 2 * i)) for i, f in enumerate(F))
    step()
    state((l, basis, tuple(F), how))
    check(near(U, ref), "slater-value", "U_matrix_slater(%d, %s, basis=%s) is not the integral" % (l, F, basis))
    check(list(arg) == F, "slater-argument", "U_matrix_slater changes its argument")
    check(T is None or (kw["T"] == T).all(), "slater-argument", "U_matrix_slater changes T")
    check(near(U, U.transpose(1, 0, 3, 2)), "slater-exchange", "U_ijkl != U_jilk")
    check(near(U, U.transpose(2, 3, 0, 1).conj()), "slater-hermitian", "U_ijkl != conj(U_klij)")
    if basis == "cubic":
        check(near(U.imag, 0 * U.real) and near(U, U.transpose(2, 1, 0, 3)), "slater-real", "the matrix elements of real orbitals lack U_ijkl = U_kjil")
    a, b = reduce_4index_to_2index(U)
    n = 2 * l + 1
    if basis != "other":
        for i, j in itertools.product(range(n), repeat=2):
            check(abs(a[i, j] - (U[i, j, i, j] - U[i, j, j, i]).real) < 1e-12 and abs(b[i, j] - U[i, j, i, j].real) < 1e-12, "reduce",
                  "reduce_4index_to_2index at ", (i, j))
    sample("U_matrix_slater(%d, %s, %s)" % (l, F, basis))


@job("slater-UJ", shards=3)
def slater_uj():
    l = 1 + choose(LMAX)
    U0, J0 = (pick([0.0, 1.0, 4.5, -2.0]), pick([0.0, 0.5, 0.9, -0.25])) if l < 2 else pick([(4.5, 0.9), (0.0, 0.5), (-2.0, 0.0), (1.0, -0.25)][:6 - l])
    basis = pick(["spherical", "cubic"])
    both = choose(3)
    F = U_J_to_radial_integrals(l, U0, J0)
    check(len(F) == l + 1, "UJ-length", "number of radial integrals for l=%d: %d" % (l, len(F)))
    check(near(radial_integrals_to_U_J(l, F), (U0, J0)), "UJ-roundtrip", "(U,J) -> F -> (U,J) for l=%d: %s" % (l, (U0, J0)))
    G = [1.5 * J0 + 0.1 * i + U0 for i in range(l + 1)]
    u, j = radial_integrals_to_U_J(l, G)
    check(near(U_J_to_radial_integrals(l, u, j)[0], G[0]), "UJ-F0", "F0 is not kept")
    with te.quiet() as q:
        if both == 0:
            T = U_matrix_slater(l, U_int=U0, J_hund=J0, basis=basis)
        elif both == 1:
            T = U_matrix_slater(l, list(F), U0, J0, basis)
        else:
            other = [x + 1.0 for x in F]
            T = U_matrix_slater(l, other, U0, J0, basis)
            check(near(T, U_matrix_slater(l, other, basis=basis)), "UJ-priority", "the radial integrals are not preferred")
            check(any("Warning" in x for x in q.text), "UJ-warning", "no warning that radial integrals and U, J differ")
            T = U_matrix_slater(l, F, basis=basis)
        if both == 1:
            check(not any("Warning" in x for x in q.text), "UJ-warning", "a warning though the radial integrals match U and J")
    step()
    state((l, U0, J0, basis, both))
    n = 2 * l + 1
    r = range(n)
    av = sum(T[i, k, i, k] for i in r for k in r) / n ** 2
    umj = sum(T[i, k, i, k] - T[i, k, k, i] for i in r for k in r) / (2 * l * n)
    check(abs(av - U0) < 1e-10, "UJ-average-U", "l=%d: the average of U_mm'mm' is %g instead of U=%g" % (l, av.real, U0))
    check(abs((av - umj) - J0) < 1e-10, "UJ-average-J", "l=%d: the averaged exchange is %g instead of J=%g" % (l, (av - umj).real, J0))
    check(raises(ValueError, U_matrix_slater, l, list(F) + [1.0], U0, J0), "UJ-refused", "a wrong number of radial integrals with U and J is not refused")
    check(raises(ValueError, U_matrix_slater, l), "UJ-refused", "neither radial integrals nor U and J: not refused")
    check(raises(ValueError, U_matrix_slater, l, None, U0), "UJ-refused", "U without J is not refused as missing argument")
    check(raises(ValueError, U_matrix_slater, l, None, None, J0), "UJ-refused", "J without U is not refused as missing argument")
    check(raises(ValueError, U_matrix_slater, l, list(F), None, None, "other"), "UJ-refused", "basis other without T is not refused")


@job("cubic")
def cubic_basis():
    l = choose(5)
    conv = pick(["triqs", "vasp", "wien2k", "wannier90", "qe", "unknown", "default"])
    step()
    state((l, conv))
    if conv == "unknown" or l > 3 or (l == 3 and conv in ("wien2k", "wannier90", "qe")):
        check(raises(ValueError, spherical_to_cubic, l, conv), "cubic-refused", "spherical_to_cubic(%d, %s) is not refused" % (l, conv))
        return
    T = spherical_to_cubic(l) if conv == "default" else spherical_to_cubic(l, conv)
    n = 2 * l + 1
    check(T.shape == (n, n) and near(T @ T.conj().T, np.eye(n)), "cubic-unitary", "spherical_to_cubic(%d, %s) is not unitary" % (l, conv))
    conv = "triqs" if conv == "default" else conv
    names = NAMES.get((l, conv)) or (["s"] if l == 0 else None)
    if names is None:
        return
    for i, nm in enumerate(names):
        f = sum(T[i, j] * sph(l, j - l) * ((-1) ** (j - l) if conv == "wien2k" and j > l else 1) for j in range(n))
        p = np.sum(W * cubic(nm) * f)
        if conv == "wien2k":
            p = abs(p)
        check(abs(p - 1) < 1e-10, "cubic-names", "row %d of spherical_to_cubic(%d, %s) is not the harmonic %s (overlap %s)" % (i, l, conv, nm, p))


@job("names")
def names():
    l, want = pick([(0, ["s"]), ("s", ["s"]), (1, NAMES[1, "triqs"]), ("p", NAMES[1, "triqs"]), (2, NAMES[2, "triqs"]), ("d", NAMES[2, "triqs"]),
                    ("t2g", ["xy", "yz", "xz"]), ("eg", ["z^2", "x^2-y^2"]), (3, NAMES[3, "triqs"]), ("f", NAMES[3, "triqs"]), (4, None), ("g", None)])
    step()
    state(l)
    if want is None:
        check(raises(ValueError, cubic_names, l), "names-refused", "cubic_names(%r) is not refused" % (l,))
    else:
        check(list(cubic_names(l)) == want, "names", "cubic_names(%r) = %r" % (l, cubic_names(l)))


@job("kanamori", shards=4)
def kanamori():
    n = 1 + choose(tier(3, 4))
    U, J = pick([0.0, 1.0, 3.5]), pick([0.0, 0.5, -0.25])
    Up, Jc = pick([None, 0.0, 2.0]), pick([None, 0.0, 0.75])
    full = flip()
    kw = {}
    if Up is not None:
        kw["Up_int"] = Up
    if Jc is not None:
        kw["Jc_hund"] = Jc
    step()
    state((n, U, J, Up, Jc, full))
    if Jc is not None and not full:
        check(raises(ValueError, U_matrix_kanamori, n, U, J, **kw), "kanamori-refused", "Jc_hund without the full tensor is not refused")
        return
    up, jc = U - 2 * J if Up is None else Up, J if Jc is None else Jc
    if not full:
        a, b = U_matrix_kanamori(n, U, J, **kw)
        for i, j in itertools.product(range(n), repeat=2):
            check(abs(a[i, j] - (0 if i == j else up - J)) < 1e-13, "kanamori-same", "U^ss of %s at %s: %g" % ((n, U, J, kw), (i, j), a[i, j]))
            check(abs(b[i, j] - (U if i == j else up)) < 1e-13, "kanamori-opposite", "U^s-s of %s at %s: %g" % ((n, U, J, kw), (i, j), b[i, j]))
    else:
        t = U_matrix_kanamori(n, U, J, full_Uijkl=True, **kw)
        for i, j, k, l in itertools.product(range(n), repeat=4):
            w = U if i == j == k == l else up if (i == k and j == l) else J if (i == l and j == k) else jc if (i == j and k == l) else 0
            check(abs(t[i, j, k, l] - w) < 1e-13, "kanamori-full", "U_ijkl of %s at %s: %g instead of %g" % ((n, U, J, kw), (i, j, k, l), t[i, j, k, l], w))
        a, b = reduce_4index_to_2index(t)
        c, d = U_matrix_kanamori(n, U, J, Up)
        check(near(a, c) and near(b, d), "kanamori-reduce", "the reduced full tensor differs from the two-index matrices")


@job("submatrix", shards=2)
def submatrix():
    conv = pick(["triqs", "vasp", "wien2k", "wannier90", "qe", "unknown", "default"])
    which = pick(["t2g", "eg"])
    f = t2g_submatrix if which == "t2g" else eg_submatrix
    rank = 2 + 2 * choose(2)
    A = np.arange(5 ** rank, dtype=float).reshape((5,) * rank) * (1 if flip() else 1j)
    step()
    state((conv, which, rank))
    if conv == "unknown":
        check(raises(ValueError, f, A, conv), "submatrix-refused", "unknown convention is not refused")
        return
    B = f(A) if conv == "default" else f(A, conv)
    nm = NAMES[2, "triqs" if conv == "default" else conv]
    sel = ["xy", "yz", "xz"] if which == "t2g" else ["z^2", "x^2-y^2"]
    idx = [i for i, x in enumerate(nm) if x in sel]
    check(B.shape == (len(idx),) * rank and (B == A[np.ix_(*[idx] * rank)]).all(), "submatrix", "%s_submatrix(rank %d, %s) is not the block of %s" % (which, rank, conv, sel))
    # the Slater interaction restricted to one of the two shells has Kanamori form
    if rank == 4 and conv != "wien2k":
        F = [4.0, 2.0, 1.25]
        U = transform_U_matrix(U_matrix_slater(2, F), spherical_to_cubic(2, "triqs" if conv == "default" else conv))
        u = f(U) if conv == "default" else f(U, conv)
        n = len(idx)
        J = u[0, 1, 1, 0].real
        check(near(u, U_matrix_kanamori(n, u[0, 0, 0, 0].real, J, full_Uijkl=True)), "submatrix-kanamori", "the %s interaction does not have Kanamori form (%s)" % (which, conv))


@job("subarray", shards=2)
def sub():
    rank = 1 + choose(3)
    shape = [1 + choose(3) for i in range(rank)]
    A = np.arange(np.prod(shape)).reshape(shape)
    idx = []
    for s in shape:
        k = [i for i in range(s) if flip()] or [s - 1]
        if flip():
            k.reverse()
        idx.append(tuple(k))
    B = subarray(A, idx)
    step()
    state((tuple(shape), tuple(idx)))
    check((B == A[np.ix_(*idx)]).all() and B.shape == tuple(len(i) for i in idx), "subarray", "subarray(%s, %s)" % (shape, idx))


@job("transform", shards=4)
def transform():
    l = 1 + choose(2)
    n = 2 * l + 1
    kind = choose(4)
    g = np.arange(n ** 4, dtype=float).reshape((n,) * 4)
    U = [U_matrix_slater(l, [3.0, 1.5, 0.5][:l + 1]), np.cos(g), np.cos(g) + 1j * np.sin(1.3 * g), np.round(2 * np.sin(g))][kind]
    a, b = choose(5), choose(5)
    T1, T2 = rotation(l, a), rotation(l, b) if b else spherical_to_cubic(l)
    U0 = U.copy()
    V = transform_U_matrix(U, T1)
    step()
    state((l, kind, a, b))
    check(near(V, direct(U, T1)), "transform-value", "transform_U_matrix is not sum conj(T) conj(T) U T T")
    check((U == U0).all(), "transform-argument", "transform_U_matrix changes its argument")
    check(near(transform_U_matrix(V, T2), transform_U_matrix(U, T2 @ T1)), "transform-compose", "two transformations differ from their product")
    check(near(transform_U_matrix(V, T1.conj().T), U), "transform-inverse", "the inverse transformation does not restore U")
    if kind == 0:
        check(near(V, U), "rotational-invariance", "the Slater interaction changes under a rotation")


main()
