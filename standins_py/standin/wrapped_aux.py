"""Stand-in for triqs.gf.wrapped_aux"""
import numbers
import numpy as np


def _check(g):
    if type(g.mesh).__name__ not in ("MeshImFreq", "MeshReFreq"):
        raise TypeError("_iadd_g_matrix_scalar: no overload for this mesh")


def _mat(g, y):
    if isinstance(y, numbers.Number):
        return y * np.eye(*g.target_shape)
    y = np.asarray(y)
    if y.ndim != 2:
        raise TypeError("no overload: not a matrix")
    if y.shape != tuple(g.target_shape):
        raise RuntimeError("shapes differ")
    return y


def _iadd_g_matrix_scalar(g, y):
    _check(g)
    g.data[...] += _mat(g, y)


def _isub_g_matrix_scalar(g, y):
    _check(g)
    g.data[...] -= _mat(g, y)


def _gf_invert_data_in_place(a):
    if a.dtype != np.complex128:
        raise TypeError("no overload for this type")
    a[...] = np.linalg.inv(a)


def set_from_gf_data_mul_LR(a, l, b, r):
    a[...] = np.matmul(np.matmul(l, b), r)


def _make_gf_from_real_gf(g):
    from triqs.gf import Gf, MeshImFreq
    m = MeshImFreq(g.mesh.beta, g.mesh.statistic, len(g.mesh))
    neg = np.conj(g.data[(1 if g.mesh.statistic == "Boson" else 0):][::-1])
    return Gf(mesh=m, data=np.concatenate([neg, g.data]), name=g.name)


class CallProxyImFreq_2:
    def __init__(self, g):
        self.g = g

    def __call__(self, x):
        n = getattr(x, "n", x)
        return self.g.data[self.g.mesh.to_data_index(n)].copy()


class CallProxyImFreq_0(CallProxyImFreq_2):
    pass
