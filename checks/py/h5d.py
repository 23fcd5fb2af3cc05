"""C50: archive comparison and assertion helpers."""
import itertools, os, runpy, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(HERE)), "lib"))
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(HERE)), "standins_py"))
from pyex import *
import triqs_env as te
te.setup()
import numpy as np
from h5 import HDFArchive
from triqs.gf import *
from triqs.operators import *
from triqs.utility import comparison_tests as CT
from triqs.utility import h5diff as HD

PREC = [1e-6, 1e-2, 1e-9]


def gf(kind=0, eps=0.0, shape=(2, 2), mesh=None):
    m = mesh or (MeshImFreq(beta=10.0, S="Fermion", n_iw=2) if kind == 0 else MeshReFreq(-1.0, 1.0, 3))
    g = Gf(mesh=m, target_shape=shape)
    g.data[...] = np.arange(g.data.size).reshape(g.data.shape) * 0.5
    g.data.flat[g.data.size // 2] += eps
    return g


def block(names, eps=0.0):
    return BlockGf(name_list=list(names), block_list=[gf(0, eps if i == len(names) - 1 else 0.0) for i in range(len(names))], make_copies=False)


def block2(n1, n2, eps=0.0):
    return Block2Gf(list(n1), list(n2), [[gf(0, eps if (i, j) == (0, len(n2) - 1) else 0.0) for j in range(len(n2))] for i in range(len(n1))], make_copies=False)


# leaf -> list of (name, maker(p)) of variants: (maker, differs)
def leaves(p):
    """alphabet: name -> (value, [(variant value, does it differ beyond the precision)])"""
    a = np.array([[1.0, 2.0], [3.0, -4.0]])
    s, b = 0.3 * p, 3 * p

    def bump(x, e, pos=-1):
        y = np.array(x)
        y.flat[pos] += e
        return y
    X = {}
    X["float"] = (1.5, [(1.5 + s, False), (1.5 - b, True), (1.5 + b, True), (-1.5, True), (1, True), ("1.5", True)])
    X["int"] = (3, [(4, True), (-3, True), (3.0, True)])
    X["complex"] = (1 + 2j, [(1 + 2j + 1j * s, False), (1 + 2j + 1j * b, True), (1 - 2j, True), (1 + 2j - b, True)])
    X["str"] = ("abc", [("abd", True), ("", True), ("abc ", True)])
    X["bool"] = (True, [(False, True), (1, True)])
    X["array"] = (a, [(a + s, False), (bump(a, s, 0), False), (bump(a, b, 0), True), (bump(a, -b), True), (a[:1], True), (a[:, :1], True), (a.ravel(), True), (a.T, True), (-a, True)])
    X["column"] = (np.array([[1.0], [1.0]]), [(np.array([[1.0, 1.0]]), True), (np.array([1.0, 1.0]), True), (np.array([[1.0 + s], [1.0]]), False)])
    X["carray"] = (a * (1 + 1j), [(bump(a * (1 + 1j), 1j * b, 1), True), (bump(a * (1 + 1j), 1j * s, 1), False), ((a * (1 + 1j)).conj(), True)])
    X["empty"] = (np.zeros((0, 2)), [(np.zeros((0, 2)), False), (np.zeros((2, 2)), True), (np.zeros((0, 3)), True)])
    X["list"] = ([1.0, "x", 2], [([1.0 + s, "x", 2], False), ([1.0, "x", 3], True), ([1.0, "y", 2], True), ([1.0, "x"], True), ([1.0, "x", 2, 2], True), ([1.0 + b, "x", 2], True), ((1.0, "x", 2), True), ([], True)])
    X["nested"] = ([[1, 2], {"k": [3.0, a]}], [([[1, 2], {"k": [3.0, bump(a, b)]}], True), ([[1, 2], {"k": [3.0, bump(a, s)]}], False), ([[1, 3], {"k": [3.0, a]}], True), ([[1, 2], {"j": [3.0, a]}], True), ([[1], {"k": [3.0, a]}], True)])
    X["tuple"] = ((1, 2.0), [((1, 2.0 + s), False), ((1, 2.0 + b), True), ((2, 2.0), True), ([1, 2.0], True)])
    X["Gf"] = (gf(), [(gf(eps=s), False), (gf(eps=b), True), (gf(eps=1j * b), True), (gf(1), True), (gf(shape=()), True), (gf(mesh=MeshImFreq(beta=11.0, S="Fermion", n_iw=2)), True), (gf(shape=(1, 1)), True),
                      (gf(mesh=MeshImFreq(beta=10.0, S="Boson", n_iw=2)), True)])
    X["scalarGf"] = (gf(shape=()), [(gf(shape=(), eps=s), False), (gf(shape=(), eps=-b), True)])
    X["BlockGf"] = (block(["a", "b"]), [(block(["a", "b"], s), False), (block(["a", "b"], b), True), (block(["a", "c"]), True), (block(["a"]), True), (block(["a", "b", "c"]), True), (gf(), True)])
    X["Block2Gf"] = (block2("ab", "cd"), [(block2("ab", "cd", s), False), (block2("ab", "cd", b), True), (block2("ab", "ce"), True), (block2("ab", "c"), True), (block2("cd", "ab"), True)])
    O = 1.5 * c_dag("a", 0) * c("a", 1) + n("b", 0)
    X["Operator"] = (O, [(O + 0.0, False), (O + s * n("b", 0), False), (O + b * n("b", 0), True), (O + b * 1j * n("b", 0), True), (O + Operator(b), True), (O - n("b", 0), True), (dagger(O), True)])
    return X


def put(ar, tree):
    for k, v in tree.items():
        ar[k] = v


def run(ta, tb, p, direct=None):
    """(differs, text)"""
    for nm, t in (("A", ta), ("B", tb)):
        with HDFArchive(nm, "w") as ar:
            for k, v in t.items():
                if isinstance(v, Sub):
                    ar.create_group(k)
                    put(ar[k], v)
                else:
                    ar[k] = v
    with te.quiet() as q:
        try:
            if direct:
                runpy.run_path(os.path.join(te.PY, "utility", "h5diff.py"), run_name="__main__")
            elif p is None:
                HD.h5diff("A", "B")
            else:
                HD.h5diff("A", "B", p)
        except RuntimeError as e:
            return True, "".join(q.text)
    return False, "".join(q.text)


class Sub(dict):
    """an archive group"""


@job("leaves", shards=4)
def leaf():
    p = pick(PREC)
    X = leaves(p)
    name = pick(sorted(X))
    v, variants = X[name]
    w, differs = pick([(v, False)] + variants)
    depth = choose(3)

    def wrap(x):
        return {"top": 1.0, "key": x} if depth == 0 else {"g": Sub({"key": x, "other": "y"}), "top": 2} if depth == 1 else {"g": Sub({"d": {"key": x}})}
    path = ["/key", "/g/key", "/g/d/key"][depth]
    swap = flip()
    a, b = (w, v) if swap else (v, w)
    step()
    state((p, name, str(w)[:60], depth, swap))
    bad, text = run(wrap(a), wrap(b), p)
    check(bad == differs, "leaf-verdict:" + name, "h5diff of %s with precision %g: %s %s" % (name, p, "reported" if bad else "not reported", (repr(a)[:150], repr(b)[:150])))
    if differs and bad:
        check(("'%s" % path) in text or (name == "nested" and path in text), "leaf-report", "the report does not name the entry %s: %s" % (path, text[:300]))
    check(not run(wrap(v), wrap(v), p)[0], "leaf-history", "equal archives are reported as different after a comparison of different ones")
    if depth == 0 and not swap:
        args = sys.argv
        sys.argv = ["h5diff", "A", "B", "-p", repr(p)] + (["-v"] if differs else [])
        try:
            bad, text = run(wrap(a), wrap(b), p, True)
        finally:
            sys.argv = args
        check(bad == differs, "script-verdict:" + name, "the script h5diff on %s: %s" % (name, "reported" if bad else "not reported"))


@job("default")
def default():
    """the default precision is 1e-6 for the function and 1e-8 for the script"""
    a, b = pick([({"x": 1.0}, lambda e: {"x": 1.0 + e}), ({"x": np.array([1.0, 2.0])}, lambda e: {"x": np.array([1.0, 2.0 + e])}),
                 ({"x": gf()}, lambda e: {"x": gf(eps=e)}), ({"x": n("a", 0)}, lambda e: {"x": (1 + e) * n("a", 0)}), ({"x": [1.0, 2.0]}, lambda e: {"x": [1.0 + e, 2.0]})])
    e = pick([1e-5, 3e-7, 3e-8, 3e-9])
    step()
    state((str(a), e))
    check(run(a, b(e), None)[0] == (e > 1e-6), "default-precision", "h5diff with default precision: difference %g in %s" % (e, a))
    args = sys.argv
    sys.argv = ["h5diff", "A", "B"]
    try:
        bad = run(a, b(e), None, True)[0]
    finally:
        sys.argv = args
    check(bad == (e > 1e-8), "default-precision-script", "the script with default precision: difference %g in %s" % (e, a))


@job("trees", shards=8)
def trees():
    """several entries, any subset of them different, missing or added; every differing entry is reported"""
    p = 1e-6
    X = leaves(p)
    names = ["float", "array", "Gf", "str"]
    kind = choose(3)
    t = {k: X[n_][0] for k, n_ in zip(["k1", "k2"], [pick(names), pick(names)])}
    sub = {"k3": X["list"][0], "k4": 7}
    order = choose(2)

    def build(edit):
        ks = list(t) + ["g"]
        if order and edit:
            ks.reverse()
        r, bad = {}, set()
        for k in ks:
            if k == "g":
                s = {}
                for j, v in (reversed(list(sub.items())) if order and edit else sub.items()):
                    if not edit:
                        s[j] = v
                        continue
                    e = choose(3)
                    if e == 0:
                        s[j] = v
                    elif e == 1:
                        s[j] = [5, "x", 2] if j == "k3" else 8
                        bad.add("/g/" + j)
                    else:
                        bad.add("/g")
                r[k] = [Sub(s), s, s][kind]
                if edit and choose(2):
                    r["new"] = 1
                    bad.add("")
            else:
                e = choose(3) if edit else 0
                if e == 0:
                    r[k] = t[k]
                elif e == 1:
                    r[k] = "other"
                    bad.add("/" + k) if not isinstance(t[k], str) or t[k] != "other" else None
                else:
                    bad.add("")
        return r, bad
    a, _ = build(False)
    b, bad = build(True)
    swap = flip()
    step()
    state((str(a), str(sorted(b)), sorted(bad), swap))
    got, text = run(b, a, p) if swap else run(a, b, p)
    check(got == bool(bad), "tree-verdict", "h5diff: %s, differing entries %s" % ("reported" if got else "not reported", sorted(bad)))
    for k in bad:
        check("'%s'" % k in text, "tree-report", "the entry '%s' is not reported: %s" % (k, text[:400]))
    for k in ["/k1", "/k2", "/g/k3", "/g/k4"]:
        if k not in bad:
            check("key '%s'" % k not in text, "tree-report-equal", "the equal entry '%s' is reported: %s" % (k, text[:400]))


@job("history", shards=2)
def history():
    """sequences of comparisons: each verdict and report depends on its own pair only"""
    X = leaves(1e-6)
    base = {"f": 1.0, "s": "x", "g": X["Gf"][0]}
    versions = [base, dict(base, f=2.0), dict(base, s="y"), {"f": 1.0, "s": "x"}, dict(base, g=gf(eps=1.0))]
    keys = [None, "/f", "/s", "", "/g"]
    for i in range(tier(3, 4)):
        k = choose(5)
        bad, text = run(base, versions[k], 1e-6)
        step()
        check(bad == (k > 0), "history-verdict", "comparison %d of a sequence: %s for version %d" % (i, bad, k))
        for j in range(1, 5):
            check(("'%s'" % keys[j] in text) == (j == k), "history-report", "comparison %d of a sequence reports entry '%s' (version %d)" % (i, keys[j], k))
    state(tuple(E.path))


def rejects(f, *a):
    try:
        f(*a)
    except AssertionError:
        return True
    return False


@job("asserts", shards=2)
def asserts():
    p = pick(PREC + [None])
    q = 1e-6 if p is None else p
    extra = () if p is None else (p,)
    which = choose(5)
    step()
    if which == 0:
        sh = pick([(1,), (2,), (2, 2), (1, 2), (2, 1), (0,), (2, 0), (3, 1, 2), ()])
        a = np.arange(int(np.prod(sh)), dtype=float).reshape(sh) * (1 if flip() else 1j)
        e = pick([0, 0.3, 3, -3, 3j, -0.3j])
        b = np.array(a + 0 * e)
        if b.size:
            b.flat[choose(b.size)] += e * q
        bad = abs(e) > 1 and b.size > 0
        check(rejects(CT.assert_arrays_are_close, a, b, *extra) == bad, "arrays", "assert_arrays_are_close(%s, %s, %s)" % (a, b, p))
        for s2 in [(1,), (2,), (2, 2), (1, 2), (2, 1), (0,)]:
            z, o = np.zeros(sh), np.zeros(s2)
            check(rejects(CT.assert_arrays_are_close, z, o, *extra) == (sh != s2), "arrays-shape", "assert_arrays_are_close of shapes %s and %s" % (sh, s2))
        state((sh, e, p))
    elif which == 1:
        k = 1 + choose(3)
        x = pick([0.0, 2.0, 1 - 1j])
        e = pick([0, 0.3, 3, -3j])
        a = np.identity(k) * (x + 0j)
        pos = choose(k * k)
        a.flat[pos] += e * q
        check(rejects(CT.assert_array_close_to_scalar, a, x, *extra) == (abs(e) > 1), "scalar", "assert_array_close_to_scalar(%s, %s)" % (a, x))
        check(rejects(CT.assert_array_close_to_scalar, np.full((k + 1, 1), x) if k > 0 else a, x, *extra) or False, "scalar-shape", "assert_array_close_to_scalar accepts a column")
        state((k, x, e, pos, p))
    else:
        X = leaves(q)
        nm = ["Gf", "BlockGf", "Block2Gf"][which - 2]
        f = [CT.assert_gfs_are_close, CT.assert_block_gfs_are_close, CT.assert_block2_gfs_are_close][which - 2]
        v, variants = X[nm]
        w, bad = pick([(v, False)] + [x for x in variants if type(x[0]) is type(v)])
        check(rejects(f, v, w, *extra) == bad and rejects(f, w, v, *extra) == bad, "assert-" + nm, "%s: %s" % (f.__name__, w))
        state((nm, str(w)[:80], p))


main()
