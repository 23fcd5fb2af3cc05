"""Stand-in for triqs.gf.meshes: the mesh classes, written from their documentation"""
import math
import numpy as np
from h5.formats import register_class


def _mp(*a):
    from triqs.gf.mesh_point import MeshPoint
    return MeshPoint(*a)


class _Mesh:
    def _key(self):
        return (type(self).__name__,) + tuple(getattr(self, k) for k in self._fields)

    def __eq__(self, o):
        return type(self) == type(o) and self._key() == o._key()

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash(self._key())

    @property
    def mesh_hash(self):
        return hash(self._key()) & (2 ** 63 - 1)

    def __len__(self):
        return self._n

    def copy(self):
        r = object.__new__(type(self))
        r.__dict__.update(self.__dict__)
        return r

    def copy_from(self, o):
        if type(o) != type(self):
            raise TypeError("copy_from: meshes of different type")
        d = dict(o.__dict__)
        self.__dict__.clear()
        self.__dict__.update(d)

    def to_data_index(self, i):
        i = int(i)
        d = i - self.first_index()
        if not 0 <= d < len(self):
            raise RuntimeError("index out of mesh")
        return d

    def to_index(self, d):
        return d + self.first_index()

    def first_index(self):
        return 0

    def last_index(self):
        return self.first_index() + len(self) - 1

    def to_value(self, i):
        return self._value(i)

    def __getitem__(self, d):
        if not 0 <= d < len(self):
            raise IndexError("out of mesh")
        i = self.to_index(d)
        return _mp(i, d, self.mesh_hash, self._value(i))

    def __call__(self, i):
        return _mp(i, self.to_data_index(i), self.mesh_hash, self._value(i))

    def __iter__(self):
        for d in range(len(self)):
            yield self[d]

    def values(self):
        from triqs.gf.mesh_point import MeshValueGenerator
        return MeshValueGenerator(self)

    def __repr__(self):
        return "%s%s" % (type(self).__name__, self._key()[1:])

    def __reduce_to_dict__(self):
        return dict(self.__dict__)

    def __reduce__(self):
        return _rebuild, (type(self), dict(self.__dict__))

    @classmethod
    def __factory_from_dict__(cls, name, d):
        return _rebuild(cls, d)


def _rebuild(cls, d):
    r = object.__new__(cls)
    r.__dict__.update(d)
    return r


def _stat(s):
    s = {"F": "Fermion", "B": "Boson"}.get(s, s)
    if s not in ("Fermion", "Boson"):
        raise TypeError("statistic must be Fermion or Boson")
    return s


class MeshImFreq(_Mesh):
    _fields = ("beta", "statistic", "_niw", "_pos")

    def __init__(self, beta, S=None, n_max=None, statistic=None, n_iw=None, positive_only=False):
        n = n_max if n_max is not None else n_iw if n_iw is not None else 1025
        if beta < 0:
            raise RuntimeError("beta<0")
        self.beta, self.statistic, self._niw, self._pos = float(beta), _stat(S or statistic), int(n), positive_only
        b = self.statistic == "Boson"
        self._n = (n if positive_only else 2 * n - (1 if b else 0))

    def positive_only(self):
        return self._pos

    def first_index(self):
        return 0 if self._pos else -self.last_index() - (self.statistic == "Fermion")

    def last_index(self):
        return self._niw - 1

    def _value(self, i):
        from triqs.gf.matsubara_freq import MatsubaraFreq
        return MatsubaraFreq(i, self.beta, self.statistic)

    def set_tail_fit_parameters(self, tail_fraction, n_tail_max=30, expansion_order=None):
        pass


class _Linear(_Mesh):
    def _lin(self, a, b, i):
        if self._n == 1:
            return a
        w = i / (self._n - 1)
        return a * (1 - w) + b * w


class MeshImTime(_Linear):
    _fields = ("beta", "statistic", "_n")

    def __init__(self, beta, S=None, n_max=None, statistic=None, n_tau=None):
        n = n_max if n_max is not None else n_tau
        self.beta, self.statistic, self._n = float(beta), _stat(S or statistic), int(n)

    def _value(self, i):
        return self._lin(0., self.beta, i)


class MeshReFreq(_Linear):
    _fields = ("w_min", "w_max", "_n")

    def __init__(self, omega_min=None, omega_max=None, n_max=None, window=None, n_w=None):
        if window is not None:
            omega_min, omega_max = window
        self.w_min, self.w_max, self._n = float(omega_min), float(omega_max), int(n_max if n_max is not None else n_w)
    omega_min = property(lambda s: s.w_min)
    omega_max = property(lambda s: s.w_max)
    delta = property(lambda s: (s.w_max - s.w_min) / (s._n - 1))

    def _value(self, i):
        return self._lin(self.w_min, self.w_max, i)


class MeshReTime(_Linear):
    _fields = ("t_min", "t_max", "_n")

    def __init__(self, t_min=None, t_max=None, n_max=None, window=None, n_t=None):
        if window is not None:
            t_min, t_max = window
        self.t_min, self.t_max, self._n = float(t_min), float(t_max), int(n_max if n_max is not None else n_t)

    def _value(self, i):
        return self._lin(self.t_min, self.t_max, i)


class MeshLegendre(_Mesh):
    _fields = ("beta", "statistic", "_n")

    def __init__(self, beta, S=None, n_max=None, statistic=None, n_l=None):
        self.beta, self.statistic, self._n = float(beta), _stat(S or statistic), int(n_max if n_max is not None else n_l)

    def _value(self, i):
        return i


class _DLR(_Mesh):
    _fields = ("beta", "statistic", "w_max", "eps")

    def __init__(self, beta, statistic=None, w_max=None, eps=None):
        self.beta, self.statistic, self.w_max, self.eps = float(beta), _stat(statistic), float(w_max), float(eps)
        self._n = 4


class MeshDLRImFreq(_DLR):
    _idx = (-5, -1, 0, 3)

    def _value(self, i):
        from triqs.gf.matsubara_freq import MatsubaraFreq
        return MatsubaraFreq(self._idx[i], self.beta, self.statistic)


class MeshDLRImTime(_DLR):
    def _value(self, i):
        return self.beta * (.1, .3, .8, .95)[i]


class MeshDLR(_DLR):
    def _value(self, i):
        return (-2., -.5, .4, 1.7)[i]


class _Cluster(_Mesh):
    def _reduce(self, i):
        return tuple(int(a) % int(n) for a, n in zip(i, self.dims))

    @property
    def dims(self):
        return np.array(self._d)

    def to_data_index(self, i):
        a, b, c = self._reduce(i)
        return (a * self._d[1] + b) * self._d[2] + c

    def to_index(self, d):
        return np.array([d // (self._d[1] * self._d[2]), d // self._d[2] % self._d[1], d % self._d[2]])

    def __call__(self, i):
        return self[self.to_data_index(i)]

    def values(self):
        return np.array([p.value for p in self])


class MeshBrZone(_Cluster):
    _fields = ("_d", "_u")

    def __init__(self, bz=None, n_k=None, dims=None):
        if dims is None:
            if np.ndim(n_k) == 0:
                nd = bz.lattice.ndim
                dims = [n_k if i < nd else 1 for i in range(3)]
            else:
                m = np.array(n_k)
                dims = np.diag(m) if m.ndim == 2 else m
        self._d = tuple(int(x) for x in dims)
        self._n = int(np.prod(self._d))
        self._u = tuple(map(tuple, np.array(bz.units)))
        self.bz = bz
    units = property(lambda s: np.array(s._u) / np.array(s._d)[:, None])

    def _value(self, i):
        return np.array(i) @ self.units

    def closest_index(self, k):
        x = np.linalg.solve(self.units.T, np.array(k, float))
        return np.array(self._reduce(np.round(x).astype(int)))


class MeshCycLat(_Cluster):
    _fields = ("_d", "_u")

    def __init__(self, lattice=None, L=None, periodization_matrix=None, dims=None, bl=None):
        lattice = lattice if lattice is not None else bl
        if dims is None:
            if L is not None and np.ndim(L) == 0:
                dims = [L if i < lattice.ndim else 1 for i in range(3)]
            else:
                m = np.array(L if L is not None else periodization_matrix)
                dims = np.diag(m) if m.ndim == 2 else m
        self._d = tuple(int(x) for x in dims)
        self._n = int(np.prod(self._d))
        self._u = tuple(map(tuple, np.array(lattice.units)))
        self.lattice = lattice
    units = property(lambda s: np.array(s._u))

    def _value(self, i):
        return np.array(i) @ self.units


def make_adjoint_mesh(m, *a):
    raise NotImplementedError("make_adjoint_mesh is compiled code")


for _c in (MeshImFreq, MeshImTime, MeshReFreq, MeshReTime, MeshLegendre, MeshDLRImFreq, MeshDLRImTime, MeshDLR, MeshBrZone, MeshCycLat):
    register_class(_c)
