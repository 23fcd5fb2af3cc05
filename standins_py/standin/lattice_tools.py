"""Stand-in for the compiled module triqs.lattice.lattice_tools: Bravais lattices, Brillouin zones, tight-binding sums."""
import numpy as np


class BravaisLattice:
    def __init__(self, units=None, orbital_positions=None, atom_orb_name=None):
        if isinstance(units, BrillouinZone):
            units, orbital_positions, atom_orb_name = (lambda b: (b.units[:b.ndim, :b.ndim], b.orbital_positions, b.orbital_names))(units.lattice)
        u = np.eye(3) if units is None else np.array(units, dtype=float)
        d = u.shape[0]
        if u.ndim != 2 or not 1 <= d <= 3 or u.shape[1] < d:
            raise RuntimeError("units matrix must be square matrix of size 1, 2 or 3")
        pos = [(0., 0., 0.)] if orbital_positions is None else orbital_positions
        self.orbital_positions = [np.array(p, dtype=float) for p in pos]
        self.orbital_names = [str(x) for x in atom_orb_name] if atom_orb_name else [""] * len(self.orbital_positions)
        if len(self.orbital_names) != len(self.orbital_positions):
            raise RuntimeError("number of names and of positions differ")
        self.ndim = d
        self.units = np.zeros((3, 3))
        self.units[:d, :d] = u[:, :d]
        if d == 1:
            x = self.units[0]
            z = np.array([0., 1., 0.])
            z -= (z @ x) * x
            z /= np.sqrt(z @ z)
            y = np.cross(z, x)
            self.units[1], self.units[2] = z, y / np.sqrt(y @ y)
        elif d == 2:
            y = np.cross(self.units[0], self.units[1])
            if np.sqrt(y @ y) < 1e-10:
                raise RuntimeError("units are not independent")
            self.units[2] = y / np.sqrt(y @ y)
        elif abs(np.linalg.det(self.units)) < 1e-10:
            raise RuntimeError("units are not independent")

    @property
    def n_orbitals(self):
        return len(self.orbital_names)

    def lattice_to_real_coordinates(self, x):
        return self.units.T[:, :self.ndim] @ np.asarray(x, dtype=float)[:self.ndim]

    def __eq__(self, o):
        return isinstance(o, BravaisLattice) and np.array_equal(self.units, o.units) and self.ndim == o.ndim and self.n_orbitals == o.n_orbitals

    def __hash__(self):
        return 1

    def __str__(self):
        return "Bravais Lattice with dimension %d" % self.ndim


class BrillouinZone:
    def __init__(self, bl):
        self.lattice = bl
        self.units = 2 * np.pi * np.linalg.inv(bl.units.T)

    @property
    def ndim(self):
        return self.lattice.ndim

    def __eq__(self, o):
        return isinstance(o, BrillouinZone) and np.array_equal(self.units, o.units) and self.lattice == o.lattice

    def __hash__(self):
        return 1


class TightBinding:
    def __init__(self, bl, hoppings, mats=None):
        if mats is None:
            if not isinstance(hoppings, dict):
                raise TypeError("hoppings must be a mapping type (dict)")
            displ, mats = list(hoppings.keys()), list(hoppings.values())
        else:
            displ = hoppings
        self.lattice = bl
        self.displ_vec = [np.array([int(i) for i in d]) for d in displ]
        self.overlap_mat_vec = [np.array(m, dtype=complex) for m in mats]
        n = bl.n_orbitals
        for d, m in zip(self.displ_vec, self.overlap_mat_vec):
            if len(d) != bl.ndim or m.shape != (n, n):
                raise RuntimeError("displacement or matrix of incorrect size")
            opp = [m2 for d2, m2 in zip(self.displ_vec, self.overlap_mat_vec) if np.array_equal(d, -d2)]
            if not opp or np.abs(m - opp[0].conj().T).max() > 1e-12:
                raise RuntimeError("no hermitian conjugate hopping")

    def lattice_to_real_coordinates(self, x):
        """Transform into real coordinates."""
        return self.lattice.lattice_to_real_coordinates(x)

    def fourier(self, k):
        """Evaluate the fourier transform"""
        k = np.asarray(k, dtype=float)
        k = k[..., :self.lattice.ndim]
        return sum(np.exp(2j * np.pi * (k @ d))[..., None, None] * m for d, m in zip(self.displ_vec, self.overlap_mat_vec)) if k.ndim == 2 else \
            sum(np.exp(2j * np.pi * (k @ d)) * m for d, m in zip(self.displ_vec, self.overlap_mat_vec))

    def dispersion(self, k):
        """Evaluate the dispersion"""
        return np.linalg.eigvalsh(self.fourier(k))

    def __eq__(self, o):
        return isinstance(o, TightBinding) and self.lattice == o.lattice and len(self.displ_vec) == len(o.displ_vec) and \
            all(np.array_equal(a, b) for a, b in zip(self.displ_vec, o.displ_vec)) and all(np.array_equal(a, b) for a, b in zip(self.overlap_mat_vec, o.overlap_mat_vec))

    def __hash__(self):
        return 1

    def __str__(self):
        return "Tight Binding Hamiltonian"


def dos(tb, nkpts, neps):
    n, d = tb.lattice.n_orbitals, tb.lattice.ndim
    g = np.array(np.meshgrid(*[np.arange(nkpts) / nkpts] * d, indexing="ij")).reshape(d, -1).T
    e, v = np.linalg.eigh(tb.fourier(g))
    lo, hi = e.min(), e.max()
    de = (hi - lo) / neps
    rho = np.zeros((neps, n))
    for i in range(len(g)):
        for l in range(n):
            a = min(int((e[i, l] - lo) / de), neps - 1)
            rho[a] += np.abs(v[i, :, l])**2
    return lo + (np.arange(neps) + .5) * de, rho / (len(g) * de)


def dos_patch(tb, triangles, neps, ndiv):
    return np.arange(neps) * 1., np.full(neps, np.asarray(triangles, dtype=float).sum() + ndiv)


def _archive(cls, fields):
    """h5 write and read: the attributes of the object"""
    def to_dict(self):
        return {f: getattr(self, f) for f in fields}

    def from_dict(c, name, d):
        x = cls.__new__(cls)
        x.__dict__.update(d)
        return x
    cls.__reduce_to_dict__ = to_dict
    cls.__factory_from_dict__ = classmethod(from_dict)
    register_class(cls)


try:
    from h5.formats import register_class
except ImportError:
    pass
else:
    _archive(BravaisLattice, ["units", "orbital_positions", "orbital_names", "ndim"])
    _archive(BrillouinZone, ["lattice", "units"])
    _archive(TightBinding, ["lattice", "displ_vec", "overlap_mat_vec"])
