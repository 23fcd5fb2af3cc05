from vt import Cpp, TIER
DEFS = {}
def define(prop, level="model_checking", rule="", assumptions=()):
    def deco(f):
        DEFS[prop] = (f, dict(level=level, rule=rule, assumptions=assumptions))
        return f
    return deco

H5INC = ["-I/usr/include/hdf5/serial"]
H5LIB = ["-L/usr/lib/x86_64-linux-gnu/hdf5/serial", "-lhdf5"]
STANDIN = "mpi, h5, itertools and nda are replaced by the stand-ins of standins/ (trusted)"
RNG_SRC = ["mc_tools/random_generator.cpp", "mc_tools/MersenneRNG.cpp"]
MC_SRC = RNG_SRC + ["utility/signal_handler.cpp"]

def mc(name, src, nd=False, **kw):
    return Cpp(name, [src], MC_SRC, flags=H5INC + (["-DNDEBUG"] if nd else []), links=H5LIB, std="c++23", **kw)

@define("C01", assumptions=[STANDIN, "user callbacks are instrumented; ratios come from three fixed patterns"])
def c01(c): c.cxx([mc("run_loop", "mc/run_loop.cpp", nd=True)])

@define("C02", assumptions=[STANDIN, "the random numbers are those of the generator, taken from a twin with the same seed"])
def c02(c): c.cxx([mc("metropolis", "mc/metropolis.cpp")])

@define("C03", assumptions=[STANDIN, "signals are delivered synchronously at function entries and exits of the compiled code, not between arbitrary instructions"])
def c03(c):
    h = mc("signals", "mc/signals.cpp", nd=True)
    h.flags += ["-finstrument-functions"]
    c.cxx([h])

@define("C04", assumptions=["the engines of boost are trusted (mt19937 is compared with the standard library, the unnamed generator with an independent Mersenne Twister)"])
def c04(c): c.cxx([Cpp("rng", ["mc/rng.cpp"], RNG_SRC, std="c++20", opt="-O2")])

@define("C05")
def c05(c): c.cxx([Cpp("buffered", ["mc/buffered.cpp"], std="c++20", asan=True)])

@define("C06", assumptions=[STANDIN, "the MPI ranks are fibers scheduled at communication calls; mpi::monitor is a model: a request becomes visible to the other ranks after a chosen delay"])
def c06(c): c.cxx([mc("parallel", "mc/parallel.cpp", nd=True)])

def small(name, src, repo=(), **kw):
    return Cpp(name, [src], list(repo), flags=H5INC, links=H5LIB, std="c++23", **kw)

@define("C17", assumptions=[STANDIN, "the random numbers are choices of the exploration"])
def c17(c): c.cxx([small("timept", "mc/timept.cpp", asan=True)])

@define("C18", assumptions=[STANDIN])
def c18(c): c.cxx([small("roc", "mc/roc.cpp", asan=True)])

@define("C19", assumptions=["the clocks of the C++ library are replaced by a clock the exploration advances"])
def c19(c): c.cxx([small("guards", "mc/guards.cpp", ["utility/callbacks.cpp", "utility/signal_handler.cpp"])])

@define("C20", assumptions=[STANDIN])
def c20(c): c.cxx([small("tuples", "mc/tuples.cpp", ["utility/typeid_name.cpp"], asan=True)])

@define("C21", assumptions=["reference values are computed in long double by other formulas (binomial sum, Miller recursion, power series, quadrature)"])
def c21(c): c.cxx([small("legendre", "mc/legendre.cpp", ["utility/legendre.cpp"])])

OPS_SRC = ["operators/many_body_operator.cpp", "hilbert_space/fundamental_operator_set.cpp"]
def ops(jobs): return small("operators", "mc/operators.cpp", OPS_SRC, opt="-O2", jobs=jobs)

@define("C09", assumptions=[STANDIN])
def c09(c): c.cxx([ops(["algebra", "words", "cancel"])])

@define("C10", assumptions=[STANDIN])
def c10(c): c.cxx([ops(["archive", "quartic", "too_long", "set_"])])

@define("C11", assumptions=[STANDIN])
def c11(c): c.cxx([ops(["set_"])])

@define("C14", assumptions=["states and operators are dense vectors and matrices of the harness"])
def c14(c): c.cxx([small("partition", "mc/partition.cpp")])

def states(jobs): return small("states", "mc/states.cpp", ["operators/many_body_operator.cpp", "hilbert_space/fundamental_operator_set.cpp"], asan=True, jobs=jobs)

@define("C12", assumptions=[STANDIN])
def c12(c): c.cxx([states(["apply", "sums", "wide", "functions", "update"])])

@define("C13", assumptions=[STANDIN])
def c13(c): c.cxx([states(["full_", "fock_", "sub_", "state_"])])

LA = H5LIB + ["-lfmt", "-lfftw3", "-llapack", "-lblas"]
def big(name, src, repo=(), **kw):
    return Cpp(name, [src], list(repo), flags=H5INC, links=LA, std="c++23", **kw)

@define("C07", assumptions=[STANDIN])
def c07(c): c.cxx([big("detmanip", "mc/detmanip.cpp", opt="-O2", jobs=["ops_", "composed", "from_", "growth"])])

@define("C08", assumptions=[STANDIN])
def c08(c): c.cxx([big("detmanip_mem", "mc/detmanip.cpp", asan=True, opt="-O2", jobs=["traces_", "growth"])])

@define("C22", assumptions=[STANDIN, "the reference is the continued fraction in exact rational arithmetic (gmpxx)"])
def c22(c):
    h = big("pade", "mc/pade.cpp", ["gfs/transform/pade.cpp"], opt="-O2")
    h.links = h.links + ["-lgmpxx", "-lgmp"]
    c.cxx([h])

def stat(jobs): return big("stat", "mc/stat.cpp", ["stat/histograms.cpp"], opt="-O2", jobs=jobs)

@define("C34", assumptions=[STANDIN, "the MPI ranks are fibers"])
def c34(c): c.cxx([stat(["acc_", "prog_", "tau", "log_mpi"])])

@define("C35", assumptions=[STANDIN, "the MPI ranks are fibers"])
def c35(c): c.cxx([stat(["jack_", "mean_"])])

@define("C36", assumptions=[STANDIN, "the MPI ranks are fibers"])
def c36(c): c.cxx([stat(["hist_"])])

@define("C16", assumptions=[STANDIN, "the operator algebra itself is checked by C09"])
def c16(c): c.cxx([big("extract", "mc/extract.cpp", OPS_SRC, opt="-O2")])

AD_SRC = ["atom_diag/impl/worker.cpp", "atom_diag/impl/atom_diag.cpp", "atom_diag/impl/functions.cpp", "atom_diag/impl/gf.cpp", "operators/many_body_operator.cpp", "hilbert_space/fundamental_operator_set.cpp", "utility/legendre.cpp", "utility/stack_trace.cpp"]
@define("C15", assumptions=[STANDIN, "Eigen3 diagonalizes the dense matrices of the oracle", "filters on the number of particles and quantum numbers are combined only with Hamiltonians that conserve them (stated precondition)"])
def c15(c): c.cxx([big("atomdiag", "mc/atomdiag.cpp", AD_SRC, opt="-O2")])

MESH_SRC = ["lattice/bravais_lattice.cpp", "lattice/brillouin_zone.cpp", "utility/legendre.cpp", "utility/stack_trace.cpp"]
def mesh(jobs): return big("mesh", "mc/mesh.cpp", MESH_SRC, opt="-O2", jobs=jobs)
@define("C23", assumptions=[STANDIN, "the DLR nodes themselves come from a stand-in of cppdlr"])
def c23(c): c.cxx([mesh(["mesh_", "matsubara_"])])
@define("C25", assumptions=[STANDIN])
def c25(c): c.cxx([mesh(["product"])])
@define("C26", assumptions=[STANDIN])
def c26(c): c.cxx([mesh(["lattice_mesh"])])
@define("C37", assumptions=[STANDIN])
def c37(c): c.cxx([mesh(["lattice_bases", "lattice_equality", "lattice_refusal"])])

GF_SRC = ["lattice/bravais_lattice.cpp", "lattice/brillouin_zone.cpp", "utility/legendre.cpp", "utility/stack_trace.cpp"]
@define("C24", assumptions=[STANDIN])
def c24(c): c.cxx([big("gfeval", "mc/gfeval.cpp", GF_SRC, opt="-O1", jobs=["eval_"])])

@define("C27", assumptions=[STANDIN])
def c27(c): c.cxx([big("gfalg", "mc/gfalg.cpp", GF_SRC, opt="-O1")])

FOURIER_SRC = GF_SRC + ["gfs/transform/fourier_common.cpp", "gfs/transform/fourier_lattice.cpp", "gfs/transform/fourier_matsubara.cpp", "gfs/transform/fourier_real.cpp"]
@define("C29", assumptions=[STANDIN])
def c29(c): c.cxx([big("fourier", "mc/fourier.cpp", FOURIER_SRC, opt="-O1")])


TAILS = dict(src="mc/tails.cpp", repo=FOURIER_SRC + ["gfs/functions/density.cpp", "gfs/functions/imtime.cpp", "gfs/functions/legendre.cpp"])
@define("C30", assumptions=[STANDIN, "the least-square solver is a stand-in (Jacobi singular values)"])
def c30(c): c.cxx([big("tails", TAILS["src"], TAILS["repo"], opt="-O1", jobs=["fit", "windows", "hermitian", "half_meshes", "density", "rebinning"])])
@define("C31", assumptions=[STANDIN])
def c31(c): c.cxx([big("tails", TAILS["src"], TAILS["repo"], opt="-O1", jobs=["legendre"])])




BLOCKS = dict(src="mc/blocks.cpp", repo=FOURIER_SRC)
@define("C28", assumptions=[STANDIN, "ranks are virtual (one process): every rank may run first, in rounds or up to the next communication"])
def c28(c): c.cxx([big("blocks", BLOCKS["src"], BLOCKS["repo"], opt="-O1", jobs=["h5", "mpi"])])
@define("C32", assumptions=[STANDIN])
def c32(c): c.cxx([big("blocks_mem", BLOCKS["src"], BLOCKS["repo"], asan=True, opt="-O0", jobs=["construct", "algebra", "refusals", "histories", "selected", "maps", "transforms"])])


@define("C33", assumptions=[STANDIN])
def c33(c): c.cxx([big("symgrp", "mc/symgrp.cpp", GF_SRC, opt="-O1")])


@define("C38", assumptions=[STANDIN, "Eigen's Hermitian eigen-solver"])
def c38(c): c.cxx([big("tb", "mc/tb.cpp", GF_SRC + ["lattice/tight_binding.cpp"], opt="-O1")])

# ------------------------------------------------------------------------------------------------ Python
PYRUN = "the compiled modules and h5 are Python stand-ins (standins_py); the .py files under test are those of the repository"

@define("C39", assumptions=["mpi4py is a model: ranks are threads of which one runs at a time, scheduled by the exploration"])
def c39(c): c.py(["mpi.py"])

@define("C40", assumptions=["mpi4py is a model (virtual ranks); the computing process of the master is a real fork, its completion is observed after a chosen delay"])
def c40(c): c.py(["dist.py"])

@define("C41", assumptions=["functions are tabulated or given by formulas of the harness"])
def c41(c): c.py(["roots.py"])

@define("C44", assumptions=[PYRUN])
def c44(c): c.py(["lazy.py"])

@define("C45")
def c45(c): c.py(["matsubara.py"])

@define("C49", assumptions=["the reading thread is scheduled by the exploration at its read, select and print calls"])
def c49(c): c.py(["streams.py"])

@define("C46", assumptions=[PYRUN])
def c46(c): c.py(["blocks.py"])

@define("C51", assumptions=[PYRUN, "the tail fit, the density and make_hermitian are compiled code, replaced by stand-ins"])
def c51(c): c.py(["tools.py"])

@define("C52", assumptions=[PYRUN])
def c52(c): c.py(["gf.py"])

@define("C42", assumptions=["spherical harmonics and quadrature are implemented in the harness"])
def c42(c): c.py(["umatrix.py"])

@define("C47", assumptions=[PYRUN])
def c47(c): c.py(["dos.py"])

@define("C53", assumptions=[PYRUN, "matplotlib is not installed: the plotting protocol is checked through the data it prepares"])
def c53(c): c.py(["plots.py"])

@define("C43", assumptions=[PYRUN, "the operator algebra is a Python stand-in, its results are turned into Jordan-Wigner matrices by the harness"])
def c43(c): c.py(["hams.py"])

@define("C50", assumptions=[PYRUN, "archives are kept in memory by the h5 stand-in"])
def c50(c): c.py(["h5d.py"])

@define("C48", assumptions=[PYRUN, "the compiled lattice module is a stand-in with the same formulas"])
def c48(c): c.py(["lattice.py"])
