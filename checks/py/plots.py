"""C53: what the plot protocol shows is the data; least-square fits recover the function the data came from"""
import itertools, math, types
import numpy as np
from pyex import *
import triqs_env as te
te.setup()
with te.quiet():
    from triqs.gf import *
    from triqs.gf.gf import Gf
    from triqs.plot.protocol import plot_protocol_apply
    import triqs.plot.protocol as proto
    from triqs.fit import Fit, linear, quadratic
    _h = te.load_source("stat/histogram.py", {})

MESH = {"im": lambda: MeshImFreq(5., "Fermion", 3), "re": lambda: MeshReFreq(-2., 2., 5), "tau": lambda: MeshImTime(4., "Fermion", 5),
        "t": lambda: MeshReTime(-1., 3., 5), "leg": lambda: MeshLegendre(5., "Fermion", 4), "dlr_im": lambda: MeshDLRImFreq(2., "Fermion", 3., 1e-6), "dlr_tau": lambda: MeshDLRImTime(2., "Fermion", 3., 1e-6)}


def xs(g, kind):
    if kind == "leg":
        return [float(i) for i in range(len(g.mesh))]
    v = [complex(p.value) for p in g.mesh]
    return [z.imag for z in v] if kind in ("im", "dlr_im") else [z.real for z in v]


def mk(kind, shape, real, seed=0, name="g"):
    g = Gf(mesh=MESH[kind](), target_shape=shape, is_real=real, name=name)
    d = np.arange(g.data.size).reshape(g.data.shape) + 30. * seed
    g.data[...] = np.cos(d) + (0 if real else 1j * np.sin(2 * d))
    return g


def expected(g, kind, mode, win):
    """the curves: (component, part) -> data"""
    x = xs(g, kind)
    keep = [i for i, v in enumerate(x) if win is None or win[0] <= v <= win[1]]
    parts = [("", lambda d: d)] if g.data.dtype == float else {"": [("Re ", np.real), ("Im ", np.imag)], "R": [("Re ", np.real)], "I": [("Im ", np.imag)], "S": [("", lambda d: -d.imag / math.pi)]}[mode]
    out = []
    for pre, f in parts:
        for c in itertools.product(*map(range, g.target_shape)):
            out.append((pre, c, [x[i] for i in keep], f(g.data[(keep,) + c])))
    return out


def compare(curves, want, key, *where):
    check(len(curves) == len(want), key + "-number", len(curves), len(want), *where)
    left = list(curves)
    for pre, c, x, y in want:
        hit = [k for k in left if k["label"].startswith(pre) and k["label"].endswith("_".join(map(str, c)))]
        ok = [k for k in hit if np.array_equal(np.asarray(k["xdata"], dtype=float), x) and np.allclose(k["ydata"], y, 1e-12, 1e-12) and len(k["ydata"]) == len(y)]
        check(ok, key, pre, c, *where)
        left = [k for k in left if k is not ok[0]]


@job("gf", shards=4)
def gf():
    """curves of a function: abscissae and values inside the window, one per component and part"""
    kind = pick(list(MESH))
    shape = pick([[], [1, 1], [2, 2], [2, 3], [2]])
    real = flip()
    mode = pick([None, "", "R", "I", "S", "Z"])
    g = mk(kind, shape, real)
    x = xs(g, kind)
    win = pick([None, (x[0], x[-1]), (x[1], x[-2]), (min(x[1], x[2]), max(x[1], x[2])), (x[1] + 1e-3, x[-1] + 5), (x[-1] + 1, x[-1] + 2)])
    opt = {} if mode is None else {"mode": mode}
    if win is not None:
        opt["x_window"] = win
    extra, named = flip(), flip()
    if extra:
        opt["color"] = "red"
    if named:
        opt["name"] = "other"
    if not real and (mode == "Z" or mode == "S" and kind != "re"):
        check(raises((ValueError, KeyError), g._plot_, dict(opt)), "plot-bad-mode-accepted", mode, kind)
        raise Prune()
    d0 = g.data.copy()
    with te.quiet():
        r = g._plot_(dict(opt)) if flip() else plot_protocol_apply(g, dict(opt), None)
    compare(r, expected(g, kind, mode or "", win), "plot", kind, shape, real, mode, win)
    for k in r:
        check(("other" if named else "g") in k["ylabel"] and ("other" if named else "g") in k["label"], "plot-name", k["label"], k["ylabel"])
        check((k.get("color") == "red") == extra and "x_window" not in k and "mode" not in k and "name" not in k, "plot-options", sorted(k))
    check(np.array_equal(g.data, d0) and g.name == "g", "plot-changed-function")
    state((kind, str(shape), real, mode, win, extra, named))


@job("blocks")
def blocks():
    """curves of a block function are those of its blocks, in order"""
    kind, nb, two = pick(["im", "re", "tau"]), choose(3) + 1, flip()
    mode = pick([None, "R", "I"])
    gs = [mk(kind, [1, 1] if i != 1 else [2, 2], False, i, "b%d" % i) for i in range(nb)]
    names = ["up", "down", "x"][:nb]
    B = BlockGf(name_list=names, block_list=gs, name="B")
    if two:
        B = Block2Gf(["a"], names, [[g.copy() for g in gs]], name="B")
    x = xs(gs[0], kind)
    win = pick([None, (x[1], x[-2])])
    opt = {} if mode is None else {"mode": mode}
    if win:
        opt["x_window"] = win
    with te.quiet():
        r = B._plot_(opt)
    want = [expected(g, kind, mode or "", win) for g in gs]
    check(len(r) == sum(map(len, want)), "block-plot-number", len(r))
    i = 0
    for w in want:
        compare(r[i:i + len(w)], w, "block-plot", kind, nb, mode)
        i += len(w)
    check(len({k["ylabel"] for k in r}) == 1, "block-plot-ylabel")
    check(B.name == "B", "block-plot-changed-name")
    state((kind, nb, two, mode, win))


@job("apply")
def apply():
    """objects without a plot function: callables, sequences of points, registered types"""
    cplx = flip()
    f = (lambda x: x * x + 2j * x) if cplx else (lambda x: x * x - 1)
    what = choose(4)
    name = pick([None, "nm"])
    opt = {} if name is None else {"name": name}
    if what == 0:
        n = pick([None, 1, 2, 5, 10])
        win = pick([None, (-1., 1.), (0., 2.5)])
        if n is not None:
            opt["n_points"] = n
        if win:
            opt["x_window"] = win
        r = plot_protocol_apply(f, opt, lambda: (-2., 2.))
        lo, hi = win or (-2., 2.)
        x = r[0]["xdata"]
        check(abs(x[0] - lo) < 1e-12 and x[-1] <= hi + 1e-12 and np.allclose(np.diff(x), (hi - lo) / (n or 100)) and len(x) in (n or 100, (n or 100) + 1), "apply-callable-points", n, win, x)
    elif what == 1:
        pts_ = [(-1., f(-1.)), (0., f(0.)), (2., f(2.))][:choose(3) + 1]
        r = plot_protocol_apply(iter(pts_) if flip() else pts_, opt, None)
        x = np.array([p[0] for p in pts_])
        check(list(r[0]["xdata"]) == list(x), "apply-points", r[0]["xdata"])
        if cplx:
            r2 = None
    elif what == 2:
        class T:
            pass
        proto.plot_function_table[T] = lambda o, d: [("table", o, d)]
        t = T()
        check(plot_protocol_apply(t, opt, None) == [("table", t, opt)], "apply-table")
        del proto.plot_function_table[T]
        raise Prune()
    else:
        check(raises(RuntimeError, plot_protocol_apply, pick([3, [1, 2], None, [(1, 2, 3)]]), opt, None), "apply-not-plottable")
        raise Prune()
    y = np.array([f(v) for v in x])
    if np.iscomplexobj(y):
        check(len(r) == 2 and np.array_equal(r[0]["ydata"], y.real) and np.array_equal(r[1]["ydata"], y.imag) and r[0]["label"].startswith("Re ") and r[1]["label"].startswith("Im "), "apply-complex")
        check(np.array_equal(r[1]["xdata"], x), "apply-complex-x")
    else:
        check(len(r) == 1 and np.array_equal(r[0]["ydata"], y), "apply-real")
    check(name is None or all("nm" in k["label"] for k in r), "apply-name")
    state((what, cplx, name, len(x)))


@job("histogram")
def histogram():
    n = choose(5) + 2
    lo, w = pick([-1., 0., 2.]), pick([1., 3.])

    class H:
        limits = (lo, lo + w)
        data = np.arange(n) * 1.5

        def __len__(self):
            return n
    h = H()
    typ, width, extra = pick([None, "XY", "bar"]), pick([None, .2]), flip()
    opt = {}
    if typ:
        opt["type"] = typ
    if width:
        opt["width"] = width
    if extra:
        opt["label"] = "L"
    r = _h.plot(h, opt)
    bw = w / (n - 1)
    shift = (width or bw) / 2 if typ == "bar" else 0
    check(len(r) == 1 and np.allclose(r[0]["xdata"], [lo + bw * i - shift for i in range(n)], 1e-12, 1e-12), "histogram-x", n, typ, width, r[0]["xdata"])
    check(np.array_equal(r[0]["ydata"], h.data) and r[0]["plot_function"] == ("bar" if typ == "bar" else "plot"), "histogram-y")
    check(r[0]["label"] == ("L" if extra else "Histogram"), "histogram-label")
    check(typ != "bar" or abs(r[0]["width"] - (width or bw)) < 1e-12, "histogram-width", width, r[0].get("width"))
    state((n, lo, w, typ, width, extra))


@job("fit", shards=4)
def fit():
    """data taken from the function itself give its parameters back, from any start"""
    kind = choose(3)
    fitter = [linear, quadratic, (lambda x, a: a * x, "%f x", (1,))][kind]
    npar = [2, 3, 1][kind]
    c = [pick([-2., 0., .5, 3.]) for _ in range(npar)]
    npts = choose(3) + npar + 1
    x = np.linspace(-1., 2., npts)
    y = fitter[0](x, *c)
    start = choose(3)
    p0 = [None, [.3] * npar, np.array([2., -1., 1.][:npar])][start]
    x0, y0 = x.copy(), y.copy()
    f = Fit(x, y, fitter, p0) if p0 is not None else Fit(x, y, fitter)
    check(np.allclose(f.param, c, 1e-5, 1e-5), "fit-parameters", kind, c, list(f.param))
    check(np.allclose(f(x), y, 1e-5, 1e-5) and abs(f(.37) - fitter[0](.37, *c)) < 1e-4, "fit-call")
    check(str(f) == fitter[1].replace("%f", "{:f}").format(*f.param).replace("+ -", "-") and repr(f) == str(f), "fit-text", str(f))
    check(np.array_equal(x, x0) and np.array_equal(y, y0), "fit-changed-data")
    check(raises(AssertionError, Fit, x[:npar], y[:npar], fitter) and raises(AssertionError, Fit, x, y[:-1], fitter), "fit-sizes-accepted")
    check(raises(AssertionError, Fit, x, y, (fitter[0], fitter[1], (1,) * (npar + 1))), "fit-parameter-count-accepted")
    state((kind, tuple(c), npts, start))


@job("fit-noise", shards=2)
def fit_noise():
    """data off the curve: the parameters are those of the least squares (normal equations)"""
    kind = choose(2)
    fitter, deg = [linear, quadratic][kind], [1, 2][kind]
    x = np.linspace(-1., 1., 5)
    y = np.array([pick([-1., 0., .5]) for _ in x])
    f = Fit(x, y, fitter)
    w = np.polyfit(x, y, deg)
    s = lambda p: np.sum((np.polyval(p, x) - y)**2)
    check(s(f.param) <= s(w) + 1e-4, "fit-not-least-squares", y, list(f.param), list(w))
    state((kind, tuple(y)))


if __name__ == "__main__":
    main()
