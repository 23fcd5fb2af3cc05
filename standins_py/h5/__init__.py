"""Stand-in for the h5 Python package: archives are nested dictionaries kept in memory, one per file name."""
import numpy as np
from . import formats

FILES = {}


class _Group:
    def __init__(self):
        self.d, self.format = {}, None


class HDFArchiveGroup:
    def __init__(self, g, path="/", mode="a"):
        self._g, self._path, self._mode = g, path, mode

    def keys(self):
        return list(self._g.d)

    def values(self):
        return [self[k] for k in self._g.d]

    def items(self):
        return [(k, self[k]) for k in self._g.d]

    def __iter__(self):
        return iter(self.keys())

    def __len__(self):
        return len(self._g.d)

    def __contains__(self, k):
        return k in self._g.d

    def __delitem__(self, k):
        del self._g.d[k]

    def create_group(self, k):
        self._g.d[k] = _Group()

    def is_group(self, k):
        return isinstance(self._g.d[k], _Group)

    def __getitem__(self, key):
        if "/" in key:
            a, r = key.split("/", 1)
            return self[a][r]
        v = self._g.d[key]
        return self._read(v, key)

    def get_raw(self, key):
        v = self._g.d[key]
        return HDFArchiveGroup(v, self._path + key + "/", self._mode) if isinstance(v, _Group) else self._read(v, key)

    def _read(self, v, key):
        if not isinstance(v, _Group):
            return v.copy() if isinstance(v, np.ndarray) else v
        if v.format is None:
            return HDFArchiveGroup(v, self._path + key + "/", self._mode)
        if v.format == "List":
            return [self._read(v.d[str(i)], str(i)) for i in range(len(v.d))]
        if v.format == "Tuple":
            return tuple(self._read(v.d[str(i)], str(i)) for i in range(len(v.d)))
        if v.format == "Dict":
            return {k: self._read(x, k) for k, x in v.d.items()}
        cls, hook = formats.lookup(v.format)
        d = {k: self._read(x, k) for k, x in v.d.items()}
        if hook:
            for k, fmt in hook(v.format).items():
                d[k] = v.d[k]
        return cls.__factory_from_dict__(key, d)

    def __setitem__(self, key, val):
        if self._mode == "r":
            raise RuntimeError("archive is read only")
        if "/" in key:
            a, r = key.split("/", 1)
            if a not in self._g.d:
                self.create_group(a)
            HDFArchiveGroup(self._g.d[a], self._path + a + "/", self._mode)[r] = val
            return
        self._g.d[key] = self._write(val)

    def _write(self, v):
        if isinstance(v, HDFArchiveGroup):
            g = _Group()
            g.d = {k: v._g.d[k] for k in v._g.d}
            g.format = v._g.format
            return g
        if isinstance(v, np.ndarray):
            return v.copy()
        if isinstance(v, (bool, int, float, complex, str, np.generic)):
            return v.item() if isinstance(v, np.generic) else v
        g = _Group()
        if isinstance(v, (list, tuple)):
            g.format = "List" if isinstance(v, list) else "Tuple"
            g.d = {str(i): self._write(x) for i, x in enumerate(v)}
        elif isinstance(v, dict):
            g.format = "Dict"
            g.d = {str(k): self._write(x) for k, x in v.items()}
        else:
            g.format = formats.name_of(type(v))
            g.d = {k: self._write(x) for k, x in v.__reduce_to_dict__().items()}
        return g

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass


class HDFArchive(HDFArchiveGroup):
    def __init__(self, name=None, mode="a", **kw):
        if name is None:
            g = _Group()
        elif mode == "w" or name not in FILES:
            if mode == "r":
                raise OSError("no such file " + name)
            g = FILES[name] = _Group()
        else:
            g = FILES[name]
        HDFArchiveGroup.__init__(self, g, "/", mode)
