"""Makes the Python code of the repository importable: compiled modules are replaced by the stand-ins of standins_py/standin."""
import importlib.abc, importlib.machinery, importlib.util, os, sys, types, warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
PY = os.path.join(REPO, "python", "triqs")
S = os.path.join(VERIF, "standins_py", "standin")
TABLE = {"triqs.version": os.path.join(PY, "version.py.in"), "triqs.utility.mpi": os.path.join(PY, "utility", "mpi.py.in"),
         "triqs.gf.meshes": S + "/meshes.py", "triqs.gf.gf_fnt": S + "/gf_fnt.py", "triqs.gf.gf_factories": S + "/gf_factories.py",
         "triqs.gf.wrapped_aux": S + "/wrapped_aux.py", "triqs.operators.operators": S + "/operators.py",
         "triqs.operators.util.extractors": S + "/extractors.py", "triqs.lattice.lattice_tools": S + "/lattice_tools.py",
         "triqs.stat.histograms": S + "/histograms.py", "triqs.atom_diag.atom_diag": S + "/atom_diag.py"}


class Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, name, path=None, target=None):
        if name not in TABLE:
            return None
        return importlib.util.spec_from_file_location(name, TABLE[name], loader=importlib.machinery.SourceFileLoader(name, TABLE[name]))


def setup(mpi="nompi"):
    for k in ("OMPI_COMM_WORLD_RANK", "PMI_RANK", "CRAY_MPICH_VERSION", "TRIQS_FORCE_MPI_INIT"):
        os.environ.pop(k, None)
    sys.dont_write_bytecode = True
    warnings.simplefilter("ignore")
    sys.path.insert(0, os.path.join(REPO, "python"))
    sys.meta_path.insert(0, Finder())
    out = sys.stdout, sys.stderr
    sys.stdout = sys.stderr = open(os.devnull, "w")
    try:
        import triqs
        import triqs.utility
    finally:
        sys.stdout, sys.stderr = out


class quiet:
    """silences what the code under test prints"""
    def __enter__(self):
        self.out = sys.stdout, sys.stderr
        sys.stdout = sys.stderr = self
        self.text = []
        return self

    def write(self, s):
        self.text.append(s)
        return len(s)

    def flush(self):
        pass

    def __exit__(self, *a):
        sys.stdout, sys.stderr = self.out


_n = [0]


def load_source(path, replace):
    """a fresh instance of a module of the repository, with some of its imports replaced: {module name: object}"""
    _n[0] += 1
    name = "fresh_%d_%s" % (_n[0], os.path.basename(path).split(".")[0])
    spec = importlib.util.spec_from_file_location(name, os.path.join(PY, path), loader=importlib.machinery.SourceFileLoader(name, os.path.join(PY, path)))
    mod = importlib.util.module_from_spec(spec)
    saved, attrs = {}, []
    for k, v in replace.items():
        saved[k] = sys.modules.get(k)
        sys.modules[k] = v
        if "." in k:
            parent, last = k.rsplit(".", 1)
            p = sys.modules.get(parent)
            if p is not None:
                attrs.append((p, last, getattr(p, last, None)))
                setattr(p, last, v)
    try:
        with quiet():
            spec.loader.exec_module(mod)
    finally:
        for k, v in saved.items():
            if v is None:
                del sys.modules[k]
            else:
                sys.modules[k] = v
        for p, last, v in attrs:
            if v is None:
                delattr(p, last)
            else:
                setattr(p, last, v)
    return mod
