"""C43: Hamiltonians and observables against Jordan-Wigner matrices."""
import itertools, math, os, sys, tempfile
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(HERE)), "lib"))
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(HERE)), "standins_py"))
from pyex import *
import triqs_env as te
te.setup()
import numpy as np
from triqs.operators import *
from triqs.operators.util import hamiltonians as H, observables as O
from triqs.operators.util.op_struct import get_mkind, set_operator_structure
from triqs.operators.util.U_matrix import U_matrix_slater, U_matrix_kanamori, spherical_to_cubic

_jw = {}


def ladder(n):
    """annihilation matrices of n modes"""
    if n not in _jw:
        a, z, e = np.array([[0, 1], [0, 0]], dtype=complex), np.diag([1, -1]).astype(complex), np.eye(2, dtype=complex)
        r = []
        for k in range(n):
            m = np.eye(1, dtype=complex)
            for j in range(n):
                m = np.kron(m, z if j < k else a if j == k else e)
            r.append(m)
        _jw[n] = r
    return _jw[n]


class Space:
    """modes (spin, orbital) -> matrices; ind(spin, orbital) is the index the operators carry"""
    def __init__(self, spins, norb, conv):
        self.modes = list(itertools.product(spins, range(norb)))
        self.C = dict(zip(self.modes, ladder(len(self.modes))))
        self.D = {k: v.conj().T for k, v in self.C.items()}
        if conv == "off":
            self.kw = dict(off_diag=True)
            self.ind = {m: (m[0], m[1]) for m in self.modes}
        elif conv == "diag":
            self.kw = dict(off_diag=False)
            self.ind = {m: ("%s_%d" % m, 0) for m in self.modes}
        else:
            self.ind = {m: ("blk", i) if conv == "map" else (len(self.modes) - i, m[0]) for i, m in enumerate(reversed(self.modes))}
            self.kw = dict(map_operator_structure=dict(self.ind))
            if conv == "map+off":
                self.kw["off_diag"] = True
        self.back = {v: k for k, v in self.ind.items()}
        self.dim = 2 ** len(self.modes)

    def mat(self, op):
        r = np.zeros((self.dim, self.dim), dtype=complex)
        for mono, v in op:
            m = np.eye(self.dim, dtype=complex) * v
            for dag, i in mono:
                k = self.back[tuple(i)]
                m = m @ (self.D if dag else self.C)[k]
            r += m
        return r

    def N(self):
        return sum(self.D[k] @ self.C[k] for k in self.modes)


CONV = ["off", "diag", "map", "map+off"]
SPINS = [["up", "down"], ["down", "up"], ["u"], ["a", "b", "c"]]


def space(maxmodes=4):
    spins = pick(SPINS)
    norb = 1 + choose(max(1, maxmodes // len(spins)))
    conv = pick(CONV)
    return spins, norb, Space(spins, norb, conv)


class Dump:
    def __init__(self, on):
        self.dir = tempfile.TemporaryDirectory() if on else None
        self.path = os.path.join(self.dir.name, "H.txt") if on else None

    def lines(self):
        with open(self.path) as f:
            t = f.read().split("\n")
        self.dir.cleanup()
        assert t[-1] == ""
        return t[:-1]


def parse(s):
    import ast
    return ast.literal_eval(s.replace("np.float64", "").strip())


def scalar(s):
    return complex(s.strip().strip("()")) if "j" in s else float(s)


def slater_matrix(S, spins, norb, U):
    h = np.zeros((S.dim, S.dim), dtype=complex)
    for s, t in itertools.product(spins, repeat=2):
        for i, j, k, l in itertools.product(range(norb), repeat=4):
            if U[i, j, k, l] != 0:
                h += 0.5 * U[i, j, k, l] * S.D[s, i] @ S.D[t, j] @ S.C[t, l] @ S.C[s, k]
    return h


@job("slater", shards=8)
def slater():
    spins, norb, S = space()
    sh = (norb,) * 4
    g = np.arange(norb ** 4, dtype=float).reshape(sh)
    kinds = norb ** 4 + 3
    kind = choose(kinds)
    cplx = flip()
    if kind < norb ** 4:
        U = np.zeros(sh, dtype=complex if flip() else float)
        U.flat[kind] = 1.5 if U.dtype == float else 1.5 + 0.5j
    elif kind == norb ** 4:
        U = np.cos(g)
    elif kind == norb ** 4 + 1:
        U = U_matrix_kanamori(norb, 2.0, 0.3, full_Uijkl=True)
    else:
        U = np.cos(g) + 1j * np.sin(2 * g)
    dump = Dump(choose(2))
    norb_arg = norb if choose(2) == 0 else ["o%d" % i for i in range(norb)]
    step()
    state((tuple(spins), norb, kind, cplx, sorted(S.kw)))
    U0 = U.copy()
    args = (spins, norb_arg, U)
    kw = dict(S.kw, complex=cplx)
    if dump.path:
        kw["H_dump"] = dump.path
    if not cplx and np.abs(U.imag).max() > 1e-10:
        check(raises(RuntimeError, H.h_int_slater, *args, **kw), "slater-refused", "complex matrix elements are not refused")
        return
    h = H.h_int_slater(*args, **kw)
    ref = slater_matrix(S, spins, norb, U)
    check(near(S.mat(h), ref), "slater-value", "h_int_slater(%s, %s, U=%s): wrong Hamiltonian %s" % (spins, norb, U.ravel(), h))
    check((U == U0).all(), "slater-argument", "the argument is changed")
    m = S.mat(h)
    n = S.N()
    check(near(m @ n, n @ m), "slater-number", "the particle number is not conserved")
    if kind == norb ** 4 + 1:
        check(near(m, m.conj().T), "slater-hermitian", "the Hamiltonian is not Hermitian")
    if dump.path:
        L = dump.lines()
        check(L[0] == "Slater Hamiltonian:", "slater-dump", "header ", L[0])
        r = np.zeros_like(ref)
        for x in L[1:]:
            a, b, c_, d, v = x.split("\t")
            a, b, c_, d = (S.back[parse(y)] for y in (a, b, c_, d))
            r += 0.5 * scalar(v) * S.D[a] @ S.D[b] @ S.C[c_] @ S.C[d]
        check(near(r, ref), "slater-dump", "the dumped terms do not add up to the Hamiltonian: ", L[:6])


@job("kanamori", shards=8)
def kanamori():
    spins, norb, S = space(6 if tier(False, True) else 4)
    if len(spins) == 3:
        return
    which = pick(["kanamori", "density"])
    alpha = [0.0, 1.0, -2.5]
    pattern = choose(4)
    g = np.arange(norb * norb, dtype=float).reshape(norb, norb)
    if pattern == 0:
        U, Up = U_matrix_kanamori(norb, 3.0, 0.5)
    elif pattern == 1:
        U, Up = np.cos(g), np.sin(g + 1)
    elif pattern == 2:
        U, Up = np.zeros((norb, norb)), np.zeros((norb, norb))
        U[choose(norb), choose(norb)] = 1.5
    else:
        U, Up = np.zeros((norb, norb)), np.zeros((norb, norb))
        Up[choose(norb), choose(norb)] = 1.5
    J = pick([0.0, 0.5, -1.25]) if which == "kanamori" else 0.0
    dump = Dump(choose(2))
    args = [spins, norb, U, Up] + ([J] if which == "kanamori" else [])
    kw = dict(S.kw)
    if dump.path:
        kw["H_dump"] = dump.path
    step()
    state((tuple(spins), norb, pattern, J, which, tuple(U.ravel()), tuple(Up.ravel()), sorted(S.kw)))
    h = (H.h_int_kanamori if which == "kanamori" else H.h_int_density)(*args, **kw)
    n = {k: S.D[k] @ S.C[k] for k in S.modes}
    ref = np.zeros((S.dim, S.dim), dtype=complex)
    parts = [np.zeros_like(ref) for i in range(3)]
    for (a, i), (b, j) in itertools.product(S.modes, repeat=2):
        if (a, i) != (b, j):
            parts[0] += 0.5 * (U if a == b else Up)[i, j] * n[a, i] @ n[b, j]
        if a != b and i != j:
            # the documented sums over i != j with one order of the two spins; the code symmetrises over both orders
            parts[1] -= 0.5 * J * S.D[a, i] @ S.C[b, i] @ S.D[b, j] @ S.C[a, j]
            parts[2] += 0.5 * J * S.D[a, i] @ S.D[b, i] @ S.C[b, j] @ S.C[a, j]
    ref = sum(parts)
    m = S.mat(h)
    check(near(m, ref), which + "-value", "h_int_%s(%s, %d, %s, %s, %s): wrong Hamiltonian %s" % (which, spins, norb, U.ravel(), Up.ravel(), J, h))
    if len(spins) == 2:
        up, dn = spins
        doc = np.zeros_like(ref)
        for i, j in itertools.product(range(norb), repeat=2):
            if i != j:
                doc += -J * S.D[up, i] @ S.C[dn, i] @ S.D[dn, j] @ S.C[up, j] + J * S.D[up, i] @ S.D[dn, i] @ S.C[dn, j] @ S.C[up, j]
        check(near(m, parts[0] + doc), which + "-documented", "the Hamiltonian is not the documented one")
    N = S.N()
    check(near(m @ N, N @ m), which + "-number", "the particle number is not conserved")
    check(near(m, m.conj().T), which + "-hermitian", "the Hamiltonian is not Hermitian")
    if dump.path:
        L = dump.lines()
        r, sect = np.zeros_like(ref), None
        got = [np.zeros_like(ref) for i in range(3)]
        for x in L[1:]:
            if x.endswith(":"):
                sect = ["Density-density terms:", "Spin-flip terms:", "Pair-hopping terms:"].index(x)
                continue
            a, b, v = x.split("\t")
            a, b, v = S.back[parse(a)], S.back[parse(b)], scalar(v)
            if sect == 0:
                got[0] += 0.5 * v * n[a] @ n[b]
            else:
                # a = (s1, i), b = (s2, j): the spins of the term are s1 and s2, its orbitals i and j
                (s, i), (t, j) = a, b
                if sect == 1:
                    got[1] += 0.5 * v * S.D[s, i] @ S.C[t, i] @ S.D[t, j] @ S.C[s, j]
                else:
                    got[2] += 0.5 * v * S.D[s, i] @ S.D[t, i] @ S.C[t, j] @ S.C[s, j]
        for k, nm in enumerate(["density-density", "spin-flip", "pair-hopping"]):
            check(near(got[k], parts[k]), which + "-dump", "the dumped %s terms do not add up to those of the Hamiltonian: %s" % (nm, L))


def comm(a, b):
    return a @ b - b @ a


@job("spin", shards=4)
def spin():
    spins, norb, S = space(6)
    step()
    state((tuple(spins), norb, sorted(S.kw)))
    n = S.mat(O.N_op(spins, norb, **S.kw))
    check(near(n, S.N()), "N", "N_op")
    with te.quiet():
        check(O.N_op(spins, ["x"] * norb, **S.kw) == O.N_op(spins, norb, **S.kw), "N-list", "N_op with a list of names")
    check(raises(RuntimeError, O.N_op, spins, norb, orb_names=[0], **S.kw), "orb-names", "orb_names is not refused")
    check(raises(ValueError, O.N_op, spins, norb), "no-structure", "neither off_diag nor map_operator_structure: not refused")
    if len(spins) != 2:
        return
    u, d = spins
    pauli = {"x": [[0, 1], [1, 0]], "y": [[0, -1j], [1j, 0]], "z": [[1, 0], [0, -1]]}
    ref = {k: sum(0.5 * p[i][j] * S.D[spins[i], o] @ S.C[spins[j], o] for o in range(norb) for i in range(2) for j in range(2)) for k, p in pauli.items()}
    ref["+"], ref["-"] = ref["x"] + 1j * ref["y"], ref["x"] - 1j * ref["y"]
    for k in "xyz+-":
        check(near(S.mat(O.S_op(k, spins, norb, **S.kw)), ref[k]), "S-value", "S_op(%s)" % k)
    check(near(comm(ref["x"], ref["y"]), 1j * ref["z"]), "harness", "algebra")
    s2 = S.mat(O.S2_op(spins, norb, **S.kw))
    check(near(s2, ref["x"] @ ref["x"] + ref["y"] @ ref["y"] + ref["z"] @ ref["z"]), "S2-value", "S2_op")
    w = np.linalg.eigvalsh(s2)
    check(all(min(abs(x - s * (s + 1)) for s in np.arange(0, norb + 1) / 2) < 1e-9 for x in w), "S2-spectrum", "eigenvalues of S2 ", w)
    check(raises(KeyError, O.S_op, "q", spins, norb, **S.kw), "S-component", "unknown component is not refused")


@job("orbital", shards=8)
def orbital():
    spins = pick([["up", "down"], ["s"], ["down", "up"]])
    conv = pick(CONV)
    norb = 1 + choose(3 if len(spins) == 2 else 5)
    basis = pick(["spherical", "cubic", "other", None])
    l = (norb - 1) / 2
    S = Space(spins, norb, conv)
    kw = dict(S.kw)
    T = np.eye(norb, dtype=complex)
    m = np.arange(norb) - l
    z = np.diag(m).astype(complex)
    p = np.zeros((norb, norb), dtype=complex)
    for i in range(norb - 1):
        p[i + 1, i] = math.sqrt(l * (l + 1) - m[i] * (m[i] + 1))
    if basis == "cubic":
        kw["basis"] = "cubic"
        if norb % 2 == 0:
            check(raises(ValueError, O.L_op, "z", spins, norb, **kw), "L-refused", "cubic basis for half-integer l is not refused")
            return
        T = spherical_to_cubic(int(l))
    elif basis == "other":
        kw["basis"] = "other"
        check(raises(ValueError, O.L_op, "z", spins, norb, **kw), "L-refused", "basis other without T is not refused")
        A = np.cos(np.arange(norb * norb).reshape(norb, norb)) + 1j * np.sin(np.arange(norb * norb).reshape(norb, norb) * 0.7)
        T = np.linalg.qr(A)[0] if flip() else np.eye(norb)[::-1] + 0j
        kw["T"] = T
    elif basis == "spherical":
        kw["basis"] = "spherical"
    step()
    state((tuple(spins), conv, norb, basis))
    mats = {"z": z, "+": p, "-": p.conj().T, "x": (p + p.conj().T) / 2, "y": (p - p.conj().T) / 2j}
    # b+_i = sum_j T_ij a+_j
    new = {s: [sum(T[i, j].conj() * 0 for j in range(0)) for i in range(norb)] for s in spins}
    ref = {}
    for k, M in mats.items():
        # the operator sum_jk M_jk a+_j a_k in terms of a+_j = sum_i conj(T_ij) b+_i (b: the operators of the result)
        R = T.conj() @ M @ T.T
        ref[k] = sum(R[i, j] * S.D[s, i] @ S.C[s, j] for s in spins for i in range(norb) for j in range(norb))
    for k in "xyz+-":
        check(near(S.mat(O.L_op(k, spins, norb, **kw)), ref[k]), "L-value", "L_op(%s, %d orbitals, %s)" % (k, norb, basis))
    if basis == "cubic" and norb == 3:
        for a, k in enumerate("xyz"):
            eps = np.zeros((3, 3), dtype=complex)
            eps[(a + 1) % 3, (a + 2) % 3], eps[(a + 2) % 3, (a + 1) % 3] = -1j, 1j
            # <p_i|L_k|p_j> = -i eps_kij for the states created by b+
            lk = sum(eps[i, j] * S.D[s, i] @ S.C[s, j] for s in spins for i in range(3) for j in range(3))
            check(near(S.mat(O.L_op(k, spins, norb, **kw)), lk), "L-p-orbitals", "L_%s of p orbitals in the cubic basis" % k)
    check(near(comm(ref["x"], ref["y"]), 1j * ref["z"]), "harness", "algebra")
    l2 = S.mat(O.L2_op(spins, norb, **kw))
    check(near(l2, sum(ref[k] @ ref[k] for k in "xyz")), "L2-value", "L2_op(%d orbitals, %s)" % (norb, basis))
    if len(spins) == 2:
        sx = {k: S.mat(O.S_op(k, spins, norb, **S.kw)) for k in "xyz"}
        ls = S.mat(O.LS_op(spins, norb, **kw))
        check(near(ls, sum(ref[k] @ sx[k] for k in "xyz")), "LS-value", "LS_op(%d orbitals, %s)" % (norb, basis))
        check(near(ls, ls.conj().T), "LS-hermitian", "LS_op is not Hermitian")


@job("symmetry", shards=2)
def symmetry():
    spins = pick([["up", "down"], ["down", "up"]])
    conv = pick(CONV)
    basis = pick(["spherical", "cubic"])
    S = Space(spins, 3, conv)
    F = [pick([2.0, 3.5]), pick([0.0, 1.25])]
    U = U_matrix_slater(1, F, basis=basis)
    h = S.mat(H.h_int_slater(spins, 3, U, complex=basis == "cubic", **S.kw))
    step()
    state((tuple(spins), conv, basis, tuple(F)))
    check(near(h, h.conj().T), "symmetry-hermitian", "the Slater Hamiltonian is not Hermitian")
    for nm, op in [("L_" + k, O.L_op(k, spins, 3, basis=basis, **S.kw)) for k in "xyz"] + [("S_" + k, O.S_op(k, spins, 3, **S.kw)) for k in "xyz"] + \
            [("L2", O.L2_op(spins, 3, basis=basis, **S.kw)), ("S2", O.S2_op(spins, 3, **S.kw)), ("N", O.N_op(spins, 3, **S.kw))]:
        check(near(comm(h, S.mat(op)), 0 * h), "symmetry-" + nm, "the Slater Hamiltonian does not commute with " + nm)


@job("diagonal", shards=4)
def diagonal():
    S = Space(["up", "down"], 2, "off")
    ops = [Operator(1.0)] + [f(*S.ind[m]) for m in S.modes for f in (c, c_dag)]
    n = tier(4, 5)
    op = pick([Operator(2.0), Operator(), 1.5 * ops[1] * ops[2]])
    term = Operator(pick([1.0, -0.5]))
    for i in range(n):
        term = term * pick(ops)
    op = op + term * (1j if flip() else 1.0)
    step()
    state(str(op))
    d = H.diagonal_part(op)
    m = S.mat(op)
    check(near(S.mat(d), np.diag(np.diag(m))), "diagonal-part", "diagonal_part(%s) = %s" % (op, d))


@job("real")
def real():
    re, im, tol = pick([0.0, 1.0, -2.0]), pick([0.0, 1e-8, -1e-8, 0.5, -0.5]), pick([None, 0.0, 1e-6, 1.0])
    op = complex(re, im) * c_dag("a", 0) * c("a", 1) + 2.0 * n("a", 0) + Operator(1.0)
    f = H.make_operator_real
    step()
    state((re, im, tol))
    args = (op,) if tol is None else (op, tol)
    if abs(im) > (tol or 0):
        check(raises(RuntimeError, f, *args), "real-refused", "make_operator_real accepts the imaginary part %g with tolerance %s" % (im, tol))
    else:
        want = re * c_dag("a", 0) * c("a", 1) + 2.0 * n("a", 0) + Operator(1.0)
        check(f(*args) == want and all(v.imag == 0 for _, v in f(*args)), "real-value", "make_operator_real(%s) = %s" % (op, f(*args)))


@job("structure")
def structure():
    spins = pick([["up", "down"], ["down", "up"], ["u"], ["a", "b", "c"], []])
    norb, off = choose(4), flip()
    arg = norb if flip() else ["o"] * norb
    with te.quiet():
        r = set_operator_structure(spins, arg, off)
    step()
    state((tuple(spins), norb, off))
    want = [(s, norb) for s in spins] if off else [("%s_%d" % (s, o), 1) for s in spins for o in range(norb)]
    check([tuple(x) for x in r] == want, "structure", "set_operator_structure(%s, %d, %s) = %s" % (spins, norb, off, r))
    # the operators of the Hamiltonians live in the blocks of the structure
    mk = get_mkind(off, None)
    inds = {mk(s, o) for s in spins for o in range(norb)}
    check(inds == {(b, i) for b, k in want for i in range(k)}, "mkind", "get_mkind(%s): %s" % (off, inds))
    mp = {(s, o): ("x%s" % s, 7 - o) for s in spins for o in range(norb)}
    mk = get_mkind(pick([None, True, False]), mp)
    check(all(mk(s, o) == v for (s, o), v in mp.items()), "mkind-map", "get_mkind does not use the map")
    check(raises(ValueError, get_mkind, None, None), "mkind-refused", "get_mkind(None, None)")


main()
