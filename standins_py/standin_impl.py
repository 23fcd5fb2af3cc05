import numpy as np

RECORD = []


def record(name, g, a, k):
    RECORD.append((name, g, a, k))
    src = a[0]
    g.data[...] = src.data[:1].mean() + 1.0


def _herm(d):
    return np.conj(np.swapaxes(d, -1, -2)) if d.ndim >= 3 else np.conj(d)


def is_gf_hermitian(g, tol=1e-12):
    d = g.data
    if type(g.mesh).__name__ == "MeshImFreq":
        return bool(np.all(np.abs(d - _herm(d[::-1])) < tol * (1 + np.abs(d).max())))
    return bool(np.all(np.abs(d - _herm(d)) < tol * (1 + np.abs(d).max())))


def is_gf_real_in_tau(g, tol=1e-12):
    d = g.data
    return bool(np.all(np.abs(d - np.conj(d[::-1])) < tol * (1 + np.abs(d).max())))


def make_hermitian(g):
    r = g.copy()
    d = g.data
    r.data[...] = .5 * (d + _herm(d[::-1] if type(g.mesh).__name__ == "MeshImFreq" else d))
    return r


def fit_hermitian_tail(g, known_moments=None, order=5):
    """least squares in 1/iw on the outer half of the mesh"""
    z = np.array([complex(x.value) for x in g.mesh])
    sel = np.abs(z) >= np.abs(z).max() * .4
    zm = np.abs(z).max()
    A = np.array([(zm / z[sel]) ** k for k in range(order)]).T
    d = g.data[sel].reshape(sel.sum(), -1)
    nk = 0 if known_moments is None else len(known_moments)
    if nk:
        K = np.asarray(known_moments).reshape(nk, -1)
        d = d - A[:, :nk] @ (K / (zm ** np.arange(nk))[:, None])
    c, *_ = np.linalg.lstsq(A[:, nk:], d, rcond=None)
    err = np.abs(A[:, nk:] @ c - d).max() if d.size else 0.
    if nk:
        c = np.concatenate([K / (zm ** np.arange(nk))[:, None], c])
    tail = c * (zm ** np.arange(order))[:, None]
    return tail.reshape((order,) + g.target_shape), err


def density(g, beta=None):
    """simple sum with the 1/(iw) part treated exactly"""
    if type(g.mesh).__name__ == "MeshImFreq":
        z = np.array([complex(x.value) for x in g.mesh])
        d = g.data
        one = np.identity(d.shape[-1]) if d.ndim == 3 else 1.
        s = (d - (1 / z).reshape((-1,) + (1,) * (d.ndim - 1)) * one).sum(0) / g.mesh.beta + .5 * one
        return s.T if d.ndim == 3 else s
    raise NotImplementedError("density of this mesh is compiled code")
