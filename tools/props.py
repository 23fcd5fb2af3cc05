# The properties, and (where a check exists) how it is decided. `python3 tools/props.py` rewrites
# properties.jsonl and MANIFEST.json.
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech]))
    if observe: d["anchors"]["observe_at"] = observe
    if state: d["anchors"]["state"] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    assert len(title) <= 80, title
    P.append(d)

MC = "c++/triqs/mc_tools/"; UT = "c++/triqs/utility/"; HS = "c++/triqs/hilbert_space/"; OP = "c++/triqs/operators/"

prop("C01", "Monte Carlo run: cycle accounting, order of calls and return code",
 "A Monte Carlo run of N cycles of length L performs exactly L move attempts per cycle, then the after-cycle duty, then (only when accumulating) every auxiliary measure followed by every registered measure exactly once with the current sign, and after each cycle asks the stop callback. It returns 0 if and only if all N cycles ran to completion, 1 if the callback stopped it earlier, 2 if a signal did; a negative N runs until stopped. Cycle, configuration and measure counters, the acceptance statistics and the HDF5 record reflect exactly what was executed.",
 ["histories", "configurations"], "all warmup/accumulate sequences, cycle counts, lengths, stop points, sets of moves, measures and auxiliary measures",
 "the only test of the run loop samples one physical model and compares averages; no test looks at return codes, at the order of calls, or at stops in the middle",
 [MC + "mc_generic.hpp", MC + "mc_measure_set.hpp", MC + "mc_measure_aux_set.hpp", MC + "mc_move_set.hpp"],
 [("main loop", MC + "mc_generic.hpp: run"), ("measure registry", MC + "mc_measure_set.hpp")], ["return value of warmup/accumulate/run", "calls received by moves and measures"])
prop("C02", "Metropolis: proposal, acceptance and sign are exact",
 "At each step one uniform random number selects the move whose interval of normalised cumulated proposal probability contains it, the selected move alone is attempted once, and it is accepted if and only if a fresh uniform number is below min(1,|R|) where R is the returned ratio; accept (or reject) is called on that move exactly once. The accumulated sign is the initial sign times, over accepted moves, the phase of R times the sign returned by accept; an infinite real ratio is accepted with its sign, a NaN or infinite complex ratio is an error naming the move. This also holds for nested move sets and for complex signs, and the reported acceptance rates are accepted/proposed for every move.",
 ["inputs", "histories"], "all sequences of (random numbers, ratios, accept signs) over an alphabet including 0, 1, negative, tiny, infinite and NaN ratios, any number of moves and nesting",
 "the existing test checks an average over a random run; it cannot see a wrong boundary, a lost sign or a wrong move being accepted",
 [MC + "mc_move_set.hpp", MC + "mc_generic.hpp"], [("attempt/accept/reject", MC + "mc_move_set.hpp: move_set"), ("Metropolis test", MC + "mc_generic.hpp: run")])
prop("C03", "A signal stops the Monte Carlo cleanly wherever it arrives",
 "A SIGINT, SIGTERM, SIGXCPU, SIGQUIT, SIGUSR1 or SIGUSR2 delivered at any point of a Monte Carlo run makes the run stop at the latest before the next move attempt, without accumulating the interrupted cycle, and the run returns 2 unless every requested cycle was completed. No delivered signal is lost before the run ends, none leaks into the next run, and the signal queue reports the received signals in order (last received first out).",
 ["schedules", "histories", "fault_sequences"], "every arrival point of one or more signals relative to the calls made by the run, and every start/stop/received/last/pop sequence",
 "no test delivers a signal; the outcome depends on when the signal lands",
 [UT + "signal_handler.cpp", UT + "signal_handler.hpp", MC + "mc_generic.hpp"], [("handler and queue", UT + "signal_handler.cpp"), ("polling", MC + "mc_generic.hpp: run")])
prop("C04", "Random generators: reproducible, in range, value semantics",
 "For every listed generator name and seed, the sequence of numbers is a function of (name, seed) only and equals that of the underlying generator; every number is in [0,1). An integer request in [0,n) returns values in that range with flat probability (floor of n times the same uniform number), real requests scale the same number, preview shows the number the next call returns without consuming it, and moving a generator object continues the very same sequence. An unknown name is an error.",
 ["inputs", "histories"], "all generator names, seeds, sequences of calls (plain, integer, scaled, preview, copy, move) across buffer refills",
 "the test draws one sequence per generator and checks it against nothing but itself",
 [MC + "random_generator.hpp", MC + "random_generator.cpp", MC + "MersenneRNG.hpp", MC + "MersenneRNG.cpp"], [("type-erased buffered generator", MC + "random_generator.cpp"), ("Mersenne twister", MC + "MersenneRNG.hpp")])
prop("C05", "Buffered function yields exactly the underlying sequence",
 "Calls to a buffered function return the successive values of the wrapped function, each exactly once and in order, whatever the buffer size; preview returns what the next call will return and consumes nothing; copies and moved objects go on with the same sequence independently; calling a default-constructed one throws.",
 ["histories", "inputs"], "all sequences of call/preview/copy/move/assign for every buffer size",
 "the test uses one size and one sequence without copies",
 [UT + "buffered_function.hpp"], [("index and refill", UT + "buffered_function.hpp: buffered_function")])
prop("C06", "Parallel Monte Carlo: an exception or stop on any rank stops all, no deadlock",
 "When a move, measure or duty throws on any rank of a parallel run with exception propagation enabled, every rank leaves the run with an exception and no rank waits forever, whatever the interleaving of ranks and the delay of messages; without any exception every rank runs its own cycles to its own end. Statistics and results collected over the ranks equal those of the concatenated runs.",
 ["schedules", "fault_sequences"], "all rank interleavings (bounded preemptions), message delays, throwing ranks and positions",
 "tests run one fixed schedule and never throw in a move",
 [MC + "mc_generic.hpp", MC + "mc_move_set.hpp", MC + "mc_measure_set.hpp"], [("node monitor", MC + "mc_generic.hpp: run"), ("collection", MC + "mc_generic.hpp: collect_results")])

DM = "c++/triqs/det_manip/det_manip.hpp"
prop("C07", "Determinant manipulator: matrix, determinant and inverse stay consistent",
 "After any sequence of completed insertions, removals, row/column changes, rollings, swaps, refills and regenerations of one or more rows and columns, the stored arguments, matrix, determinant (with sign) and inverse are those of the matrix built directly from the arguments in their current order, and every try operation returns the ratio of the new to the old determinant.",
 ["histories", "inputs"], "all operation sequences, positions and sizes up to a bound, including non-trivial row/column orderings, near-singular intermediate matrices, real and complex functions",
 "tests follow a few random walks; ordering errors need particular position sequences",
 [DM], [("Sherman-Morrison/Woodbury updates with permutations", DM)])
prop("C08", "Determinant manipulator: abandoned tries leave no trace; faithful copies",
 "A try that is rejected (or whose arguments are invalid) leaves arguments, matrix, determinant and inverse unchanged and the object ready for the next operation; reserve never changes the value. Copying, moving, swapping, and writing to and reading from HDF5 give an object equal in all of these that behaves identically in every later operation (the precision bounds of its self-check are not archived).",
 ["histories"], "all sequences mixing try, reject, complete, reserve, copy, move, swap and HDF5 round trip",
 "tests do not continue operating after reject, swap or h5 round trip",
 [DM], [("last_try state machine", DM), ("swap, move and h5", DM)])

prop("C09", "Many-body operators form the fermionic algebra",
 "Sums, differences, products, powers, scalar multiples, negation, Hermitian conjugates, and commutators built from canonical operators are represented in a unique normal form and equal, as matrices in Fock space, the same expression of Jordan-Wigner matrices; {c_a, c^+_b} = delta_ab and two operators are equal as objects exactly when no term distinguishes them. Terms cancel completely, conversion between real and complex coefficients preserves values, and printing shows every term.",
 ["inputs", "programs"], "all expressions up to a size over several orbitals with integer and string indices, real and complex coefficients",
 "the test evaluates a couple of dozen hand-written expressions",
 [OP + "many_body_operator.hpp", OP + "many_body_operator.cpp"], [("normal ordering", OP + "many_body_operator.hpp: normalize_and_insert")])
prop("C10", "Operators and operator sets survive HDF5 unchanged",
 "Writing any many-body operator (up to quartic monomials, real or complex coefficients, integer or string or mixed indices) or fundamental operator set to HDF5 and reading it back into any object yields exactly the same operator or set; operators with longer monomials are refused with an error and not truncated.",
 ["inputs", "histories"], "all operators over an alphabet of indices and coefficients, read into fresh and non-empty targets",
 "the test round-trips one operator into a fresh object",
 [OP + "many_body_operator.cpp", HS + "fundamental_operator_set.cpp"], [("monomial record", OP + "many_body_operator.cpp: h5_write/h5_read"), ("index attribute", HS + "fundamental_operator_set.cpp")])
prop("C11", "Fundamental operator set is an ordered bijection",
 "A fundamental operator set numbers its distinct index sequences 0..n-1 in insertion order whatever way it is built (insertion, block sizes, set, vector or Green's function structure); repeated insertion changes nothing; lookup, iteration and the stored list agree; looking up an absent index is an error.",
 ["histories", "inputs"], "all insertion sequences over integer/string index sequences of several lengths and all constructors",
 "tests construct two examples",
 [HS + "fundamental_operator_set.hpp"], [("vector plus find", HS + "fundamental_operator_set.hpp")])
prop("C12", "Applying an operator to states follows Jordan-Wigner signs in any space",
 "Applying an operator to a basis state or superposition of a full Hilbert space or of any subspace gives the sum over monomials of the exact fermionic signs and amplitudes in the ordering of the operator set, for every number of orbitals up to 64; annihilated components are dropped, contributions that leave the subspace and cancel do no harm, and coefficients that are functions are evaluated at the arguments of the call.",
 ["inputs"], "all monomials on all basis states for small spaces, and sparse states with orbitals at any position up to 64",
 "tests use three to five orbitals",
 [HS + "imperative_operator.hpp", HS + "hilbert_space.hpp"], [("parity of the mask", HS + "imperative_operator.hpp")])
prop("C13", "Hilbert spaces and states: indexing and linear algebra",
 "A full Hilbert space and any subspace map between basis index and Fock state one to one, with errors for states outside; the map-based and the array-based state obey the same vector-space algebra, dot product, element access and iteration over non-zero amplitudes, and projection to another space keeps exactly the amplitudes of the common Fock states. Spaces survive HDF5 round trip.",
 ["inputs", "histories"], "all operation sequences on states over small spaces and subspaces, both representations",
 "tests use a handful of fixed states",
 [HS + "hilbert_space.hpp", HS + "state.hpp"], [("index map", HS + "hilbert_space.hpp: sub_hilbert_space"), ("amplitude containers", HS + "state.hpp")])
prop("C14", "Space partition: invariant blocks, finest, one-to-one connections after merge",
 "The automatic partition of a Hilbert space by an operator gives disjoint subspaces covering the space such that the operator never connects two of them and none could be split further; after merging with pairs of creation/annihilation operators each of these maps every subspace into at most one subspace and the mapping found is complete; the recorded non-vanishing matrix elements are exactly those of the operators.",
 ["inputs"], "all Hamiltonians and operator pairs on small state spaces, including non-Hermitian connectivity",
 "tests check two models' dimensions",
 [HS + "space_partition.hpp"], [("disjoint sets", HS + "space_partition.hpp")])
AD = "c++/triqs/atom_diag/"
prop("C15", "Exact diagonalization of an atomic problem equals dense diagonalization",
 "For any Hermitian operator on a few orbitals, the subspaces found partition the Fock space, energies and eigenvectors reproduce the dense spectrum, creation and annihilation operators in the eigenbasis and any operator matrix equal the dense ones, and partition function, density matrix, expectation values, quantum-number assignment and the Green's function in its Lehmann, time, frequency and Legendre forms equal the direct trace formulas. Results survive HDF5 round trip.",
 ["inputs", "configurations"], "all Hamiltonians over an alphabet of one- and two-body terms on up to four orbitals, all three ways of splitting the space, several temperatures",
 "tests compare a few models to stored references produced by the same code",
 [AD + "atom_diag.hpp", AD + "impl/worker.cpp", AD + "impl/atom_diag.cpp", AD + "impl/functions.cpp", AD + "impl/gf.cpp"], [("worker", AD + "impl/worker.cpp"), ("traces", AD + "impl/functions.cpp")])
prop("C16", "Coefficient extractors reconstruct the operator",
 "Extracting density-density, Hubbard, four-index or one-body coefficients from an operator and rebuilding an operator from them gives back the corresponding part of the operator exactly, with the documented symmetry of the coefficients, and terms that do not fit the requested form are rejected unless told to ignore them.",
 ["inputs"], "all combinations of quadratic and quartic terms over a small index set",
 "the test has one example per function",
 [OP + "util/extractors.hpp"], [("extractors", OP + "util/extractors.hpp")])
prop("C17", "Imaginary-time points form exact cyclic arithmetic",
 "Time points on [0,beta] created from a segment behave as exact cyclic integers: differences and sums wrap around beta and are associative and invertible, comparison agrees with the double value, the conversion to double lies in [0,beta] and is monotonic, and special points (zero, epsilon, beta) are the extreme values; random points are uniform and in range.",
 ["inputs", "histories"], "all combinations of points at and near the special values, several beta",
 "the test prints a few values",
 [UT + "time_pt.hpp"], [("64-bit cyclic integer", UT + "time_pt.hpp")])
prop("C18", "Real-or-complex number behaves like the number it holds",
 "Arithmetic, comparison, conversion, conjugation and printing of the real-or-complex number give the results of ordinary complex arithmetic (for finite values) and stay real exactly as long as all inputs are real; conversion of a genuinely complex value to real is an error. Zero tests and canonical zero are exact for integers and tolerant for floating point.",
 ["inputs", "programs"], "all expressions over an alphabet of real and complex values including zeros, negatives and tiny values",
 "the test has a few expressions",
 [UT + "real_or_complex.hpp", UT + "numeric_ops.hpp"], [("is_complex flag", UT + "real_or_complex.hpp"), ("zero test", UT + "numeric_ops.hpp")])
prop("C19", "Scope guards, timers, verbosity streams and clock callbacks",
 "A scope guard runs its action exactly once on leaving its scope by any path unless dismissed or moved from; a timer's reading is the sum of its start-stop intervals (plus the running one) and never decreases; a verbosity stream prints exactly the messages whose level does not exceed its verbosity; a clock callback is false before and true after its time limit, and never true for a non-positive limit.",
 ["histories", "schedules"], "all histories of guard creation, move, dismissal and exceptions; all start/stop/read schedules of a controlled clock; all nested levels",
 "tests exercise one scope exit and one callback",
 [UT + "scope_guard.hpp", UT + "timer.hpp", UT + "report_stream.hpp", UT + "callbacks.cpp"], [("guards", UT + "scope_guard.hpp"), ("timer", UT + "timer.hpp"), ("report_stream", UT + "report_stream.hpp"), ("clock_callback", UT + "callbacks.cpp")])
prop("C20", "Tuple, variant, function-signature and iterator helpers",
 "The tuple helpers (apply, map, zip, fold, reverse, filter, construct), variant printing, the serialization of tuples, the function-signature introspection, the bracket proxies and the dressed iterators give for every tuple length, element type and value what the corresponding element-wise loop gives, in order, without copying or dropping an element.",
 ["inputs", "programs"], "tuple lengths 0..5 over several element types; all visitation orders; all iterator walks",
 "each helper has a single example",
 [UT + "tuple_tools.hpp", UT + "tuple_serialize.hpp", UT + "variant_extensions.hpp", UT + "function_arg_ret_type.hpp", UT + "lazy_bracket.hpp", UT + "dressed_iterator.hpp", UT + "concept_tools.hpp", UT + "typeid_name.cpp"], [("tuple folding", UT + "tuple_tools.hpp"), ("dressing", UT + "dressed_iterator.hpp")])
prop("C21", "Legendre functions satisfy their defining relations",
 "The Legendre generator returns P_0(x), P_1(x), P_2(x), ... in order after each reset; the modified spherical Bessel function (of non-negative argument), the Legendre-to-Matsubara coefficients T_nl and the coefficients t_l^p satisfy their closed forms and recursions for every order and frequency index, negative frequencies included, and T is unitary in the limit of many frequencies.",
 ["inputs", "histories"], "all orders up to a bound, all frequency indices in a window including n=0 and negative, a grid of arguments",
 "no test looks at them outside one Green's function transform",
 [UT + "legendre.hpp", UT + "legendre.cpp"], [("recursion", UT + "legendre.hpp: legendre_generator"), ("coefficients", UT + "legendre.cpp")])
prop("C22", "Pade approximants reproduce rational data",
 "The Pade continuation through n distinct points interpolates those points and equals the continued fraction through them wherever that fraction exists (its coefficients being zero or above the documented truncation threshold), hence reproduces a rational function of low enough degree everywhere, also from more points than needed. The continuation of a Green's function uses the first n positive Matsubara frequencies of each component on its own, and refuses a number of points that the mesh does not have.",
 ["inputs"], "all rational functions over an alphabet of poles and residues, all numbers of points",
 "one function is tested at one tolerance",
 [UT + "pade_approximants.hpp", "c++/triqs/gfs/transform/pade.cpp"], [("continued fraction with exact arithmetic", UT + "pade_approximants.hpp")])
ME = "c++/triqs/mesh/"; GF = "c++/triqs/gfs/"; ST = "c++/triqs/stat/"; LA = "c++/triqs/lattice/"; PY = "python/triqs/"
prop("C23", "Meshes: index, data index and value are consistent bijections",
 "For every mesh type, iterating yields exactly size() points in data order; index and data index are inverse bijections, the value of a point is the documented one (equally spaced linear points with exact end points, (2n+1)pi/beta or 2n pi/beta for Matsubara frequencies, symmetric or positive ranges), the point closest to a value is a nearest one, membership tests agree with the index range, and equal parameters give equal meshes. Meshes survive HDF5 round trip.",
 ["inputs", "configurations"], "all mesh types, sizes 0/1/2.., statistics, options and indices up to a bound",
 "tests check a few points of a few meshes",
 [ME + "imfreq.hpp", ME + "imtime.hpp", ME + "bases/linear.hpp", ME + "legendre.hpp", ME + "discrete.hpp", ME + "refreq.hpp", ME + "retime.hpp"], [("linear mesh", ME + "bases/linear.hpp"), ("Matsubara mesh", ME + "imfreq.hpp"), ("domains", ME + "domains/matsubara.hpp")])
prop("C24", "Evaluation off the mesh points is exact interpolation",
 "Evaluating a function on a mesh at a mesh point gives the stored value; between points linear meshes give the linear interpolant and are exact for linear data; Legendre and DLR coefficients are summed with their basis functions; a Matsubara frequency outside of the mesh gives the complex conjugate for a mesh of positive frequencies, the fitted tail for a full mesh, zero in a product mesh, and is refused beyond a mesh of positive frequencies. The same holds in each variable of a product mesh, also when other variables are left free.",
 ["inputs"], "all mesh sizes up to a bound and evaluation points on, between, at the ends of and beyond the points",
 "tests evaluate a few points",
 [ME + "evaluate.hpp", ME + "bases/linear.hpp", GF + "evaluator.hpp"], [("evaluate", ME + "evaluate.hpp")])
prop("C25", "Product meshes are the Cartesian product in row-major order",
 "A product mesh has as points exactly all tuples of component points in row-major order; its size, index, data index, membership, equality and iteration agree with the components', and it survives HDF5 round trip.",
 ["configurations", "inputs"], "all products of two or three small meshes",
 "tests use one product",
 [ME + "prod.hpp"], [("component tuple", ME + "prod.hpp")])
prop("C26", "Lattice and Brillouin-zone meshes: periodic indexing and k/r duality",
 "Brillouin-zone and cyclic-lattice meshes map index triples to data indices one to one modulo their periods, every momentum or displacement is reduced to the same point as its periodic images, the value of a point is its index combined with the basis vectors, the closest momentum point to any value is a nearest one modulo reciprocal vectors, and evaluation is periodic and exact on the points.",
 ["inputs", "configurations"], "all dims up to a bound in 1-3 dimensions, several lattice bases, all indices in several periods",
 "tests use one or two lattices",
 [ME + "brzone.hpp", ME + "cyclat.hpp"], [("index_modulo", ME + "cyclat.hpp"), ("closest point", ME + "brzone.hpp")])
prop("C27", "Green's function containers: algebra, views and slices act point-wise",
 "Arithmetic of Green's functions, scalars, matrices and mesh-dependent expressions acts point by point on the data with matrix product semantics for matrix-valued functions; inverse, transpose, conjugate, real and imaginary parts and slices act on every point; views alias their parent and copies do not; assigning a lazy expression fills every mesh point with its value.",
 ["programs", "histories"], "all expressions up to a size over meshes and targets, and all sequences of view, slice, copy, move and assignment",
 "tests evaluate individual expressions",
 [GF + "gf/gf.hpp", GF + "gf/gf_view.hpp", GF + "gf/gf_const_view.hpp", GF + "gf/gf_expr.hpp", GF + "gf/auto_assign.hpp", GF + "functions/functions2.hpp"], [("expressions", GF + "gf/gf_expr.hpp"), ("data access", GF + "gf/_gf_view_common.hpp")])
prop("C28", "Green's functions and block Green's functions survive HDF5 and MPI unchanged",
 "Writing a Green's function or block Green's function of any mesh and target to HDF5 and reading it back yields an equal object, reading a different type is refused, and reduce, all-reduce and broadcast (of functions on equal meshes) over any number of ranks give the documented result on every rank that is to receive it, into functions and views. Functions of positive Matsubara frequencies only are completed by conjugation when read.",
 ["inputs", "schedules"], "all mesh/target combinations, small shapes, one to four ranks and roots",
 "tests run one shape",
 [GF + "h5.hpp", GF + "gf/_gf_view_common.hpp", GF + "gf/gf.hpp", GF + "block/mpi.hpp"], [("h5", GF + "h5.hpp"), ("mpi lazy", GF + "gf/gf.hpp")])
prop("C29", "Fourier transforms are exact transforms pairs",
 "The time-to-frequency and frequency-to-time transforms (imaginary and real axes, lattice r and k) agree with the defining sums for functions they represent exactly, are inverse to each other within the discretisation, linear, correct for each statistics and act independently on every target component and on every other mesh variable.",
 ["inputs"], "all basis functions (single poles, single points, single harmonics), mesh sizes, statistics, targets up to a bound",
 "tests use one or two functions per transform",
 [GF + "transform/fourier_matsubara.cpp", GF + "transform/fourier_real.cpp", GF + "transform/fourier_lattice.cpp", GF + "transform/fourier_common.cpp", GF + "transform/fourier.hpp"], [("transforms", GF + "transform/fourier_matsubara.cpp")])
prop("C30", "High-frequency tails, density and rebinning are exact on their model functions",
 "Fitting the tail of a function that is an exact truncated Laurent series returns its moments, respecting known moments; the density of a function given in any representation equals the density of the underlying pole model; Hermiticity checks and symmetrisation act exactly.",
 ["inputs"], "all pole models over an alphabet, all numbers of known moments, statistics and mesh kinds",
 "tests use one function each",
 [ME + "tail_fitter.hpp", GF + "functions/density.cpp", GF + "functions/imfreq.hpp"], [("least-square fit", ME + "tail_fitter.hpp"), ("density", GF + "functions/density.cpp")])
prop("C31", "Legendre representation transforms are consistent",
 "Transforming a function given by its Legendre coefficients to imaginary time and frequency gives the sum of the defining series for every coefficient and target component, transforming back recovers the coefficients, and enforcing a discontinuity changes the function minimally and yields exactly that jump.",
 ["inputs"], "all single-coefficient functions up to an order, statistics, targets",
 "one example is tested",
 [GF + "transform/legendre_matsubara.hpp", GF + "functions/legendre.cpp"], [("transform", GF + "transform/legendre_matsubara.hpp")])
prop("C32", "Block Green's functions: names, order and block-wise operations",
 "A block Green's function keeps its blocks in order with their names, every algebraic operation, map, view and reduction is done block by block, mismatched shapes are refused, and views of selected blocks alias the originals.",
 ["programs", "histories"], "all small block structures and operation sequences",
 "tests use one structure",
 [GF + "block/block_gf.hpp", GF + "block/map.hpp", GF + "block/expr.hpp", GF + "block/factories.hpp"], [("block list", GF + "block/block_gf.hpp")])
prop("C33", "Symmetrisation of a Green's function over a group is the exact projection",
 "For a set of symmetry operations on mesh points and target indices, the symmetry classes partition all components, symmetrising gives an invariant function equal to the input when the input was invariant, representative data determine the function, and the reported maximal violation is the true one.",
 ["inputs"], "all groups generated by small sets of index permutations and sign/conjugation operations on small meshes",
 "one model is tested",
 [GF + "gf_sym_grp.hpp"], [("symmetry classes", GF + "gf_sym_grp.hpp")])
prop("C34", "Accumulators bin data exactly",
 "After any number of samples, linear bins are the consecutive block averages of their capacity, logarithmic bins give for each power of two the exact statistics of the blocks completed so far, compression merges neighbouring bins exactly, and errors and autocorrelation estimates equal those computed directly from the stored series. Parallel versions equal those of the union of the samples, and HDF5 round trip preserves the accumulator.",
 ["histories", "inputs"], "all sample counts, capacities, bin counts and compression sequences up to a bound; one to four ranks",
 "tests use one or two sizes",
 [ST + "accumulator.hpp", ST + "mean_error.hpp"], [("binning", ST + "accumulator.hpp")])
prop("C35", "Jackknife and mean/error estimates equal their definitions",
 "Mean and standard error of any data, and jackknife average, bias correction and error of any function of several series, equal their textbook definitions for every length (two or more for errors) and value type (real, complex, arrays); parallel versions over any distribution of data on ranks equal the serial result on the concatenated data.",
 ["inputs", "schedules"], "all lengths up to a bound, all distributions over ranks, linear and non-linear functions, scalar, complex and array data",
 "tests use two series",
 [ST + "jackknife.hpp", ST + "mean_error.hpp"], [("jackknife_impl", ST + "jackknife.hpp")])
prop("C36", "Histograms count every point once",
 "Each point added to a histogram within its limits is counted in the single bin whose cell contains it (limits included), points outside (and values that are not numbers) are counted as lost; counts, limits and mesh are preserved by sum, MPI reduction, HDF5, copy and normalisation to a pdf, and the cdf is the running sum ending at one.",
 ["inputs", "histories"], "all bin numbers, limits and points on, between and outside the bin edges",
 "tests compare one filling",
 [ST + "histograms.hpp", ST + "histograms.cpp", PY + "stat/histogram.py"], [("bin index", ST + "histograms.hpp")])
prop("C37", "Bravais lattices and Brillouin zones are dual bases",
 "A Bravais lattice converts between lattice and real coordinates by its unit vectors in every dimension, its Brillouin zone's reciprocal vectors satisfy a_i.b_j = 2 pi delta_ij (also with missing dimensions), and both survive HDF5 round trip and comparison.",
 ["inputs"], "an alphabet of bases in 1-3 dimensions (skewed, left-handed, anisotropic), orbital lists, coordinates",
 "one square lattice is tested",
 [LA + "bravais_lattice.cpp", LA + "bravais_lattice.hpp", LA + "brillouin_zone.cpp"], [("units", LA + "bravais_lattice.cpp")])
prop("C38", "Tight-binding Hamiltonians equal the Fourier sum of their hoppings",
 "The Fourier transform of a tight-binding model at any momentum (single, list or mesh) is the sum over displacements of overlap matrices times the phase, dispersions are its eigenvalues in order, it is periodic and Hermitian when the hoppings are, and the density of states and path tools sample exactly this dispersion with unit weight. HDF5 round trip preserves the model.",
 ["inputs"], "all small hopping sets, dimensions, orbitals, momenta",
 "one lattice is tested",
 [LA + "tight_binding.cpp", LA + "tight_binding.hpp"], [("fourier", LA + "tight_binding.cpp")])
prop("C39", "Python: MPI helpers partition arrays exactly and emulate MPI without it",
 "Slicing an array over any number of ranks partitions it into contiguous, disjoint, complete, balanced pieces; without MPI the fallback layer gives on the single node the result of the corresponding MPI operations; broadcast, reductions and point-to-point calls give what MPI defines for every data type.",
 ["inputs", "schedules"], "all array lengths and rank counts up to a bound; all calls",
 "no test runs on several ranks",
 [PY + "utility/mpi_mpi4py.py", PY + "utility/mpi_nompi.py", PY + "utility/mpi.py.in"], [("slice_inclusive", PY + "utility/mpi_mpi4py.py")])
prop("C40", "Python: distributing tasks over nodes does every task exactly once",
 "Distributing an iterable of tasks over nodes runs every task exactly once, whatever its value, and delivers its result to the master whatever the number of nodes and the order in which nodes finish; the caller's data are not changed.",
 ["schedules", "inputs"], "all completion orders and message interleavings of two to four nodes with a handful of tasks",
 "it is never tested with more than one node",
 [PY + "utility/dist_on_nodes.py"], [("master/slave loop", PY + "utility/dist_on_nodes.py")])
prop("C41", "Python: root finding returns a solution within precision or says it failed",
 "The dichotomy search on a monotonic function returns a point where the function is within the requested precision of the target, or reports failure when it ran out of iterations; bracketing then bisecting converges for either direction of monotonicity and any starting point.",
 ["inputs"], "all monotonic step and piecewise-linear functions on a grid, targets, starting points, precisions",
 "one function is tested",
 [PY + "utility/dichotomy.py", PY + "utility/bound_and_bisect.py"], [("dichotomy", PY + "utility/dichotomy.py")])
prop("C42", "Python: interaction matrices have the symmetries of the Coulomb integral",
 "Interaction matrices built from Slater integrals or Kanamori parameters equal the defining angular integrals for every shell, obey the permutation and rotational symmetries of the Coulomb integral, transform correctly between spherical and cubic bases with unitary matrices, and conversions between (U,J) and radial integrals are mutually inverse.",
 ["inputs"], "all l up to 3, all index quadruples, an alphabet of radial integrals and rotations",
 "tests compare to stored numbers for one set of parameters",
 [PY + "operators/util/U_matrix.py"], [("angular matrix elements", PY + "operators/util/U_matrix.py")])
prop("C43", "Python: interaction Hamiltonians and observables match their matrix definition",
 "The density, Kanamori and Slater Hamiltonians equal the sum of the documented quartic terms for the given matrices, are Hermitian and conserve the particle number; number, spin and orbital angular momentum operators and operator sets satisfy their algebra.",
 ["inputs"], "all small orbital numbers, spin names and index conventions, matrices over an alphabet",
 "tests compare against stored results for one case",
 [PY + "operators/util/hamiltonians.py", PY + "operators/util/observables.py", PY + "operators/util/op_struct.py"], [("sums of terms", PY + "operators/util/hamiltonians.py")])
prop("C44", "Python: lazy expressions evaluate to the expression they were built from",
 "Expressions built from lazy placeholders evaluate, after substitution, to what direct evaluation of the same expression gives, with operands in the same order; transformation visits every term, and printing shows an equivalent expression.",
 ["programs"], "all expressions up to a size over scalars and placeholders on either side of each operator",
 "only used indirectly by tests of Green's functions",
 [PY + "gf/lazy_expressions.py", PY + "gf/descriptor_base.py"], [("expression tree", PY + "gf/lazy_expressions.py")])
prop("C45", "Python: Matsubara frequencies behave as the complex number i omega_n",
 "A Matsubara frequency object converts to i(2n+1)pi/beta or 2n i pi/beta, its sums and differences with frequencies give the frequency of combined index and statistics, and all arithmetic with numbers equals complex arithmetic with that value on either side.",
 ["inputs"], "all pairs of indices, statistics and number types for every operator and side",
 "one or two operations are tested",
 [PY + "gf/matsubara_freq.py"], [("operators", PY + "gf/matsubara_freq.py")])
prop("C46", "Python: block containers act block-wise and keep order and names",
 "Block Green's function containers iterate over (name, block) pairs in order, look up by name, apply arithmetic and assignments to each block (by position for equal names, scalars to all), refuse mismatched structures and copy deeply; mapping a function over blocks keeps names; two-index blocks likewise.",
 ["programs", "histories"], "all small block structures and operation sequences",
 "tests use one structure",
 [PY + "gf/block_gf.py", PY + "gf/block2_gf.py", PY + "gf/map_block.py"], [("containers", PY + "gf/block_gf.py")])
prop("C47", "Python: density of states and Hilbert transforms integrate exactly",
 "A density of states computes densities of states integrals, its Hilbert transform equals the sum over energies of rho/(z - eps) for scalar and matrix-valued arguments and any self-energy; the k-sum of a lattice Green's function equals the direct average.",
 ["inputs"], "all small energy grids, weights and self energies",
 "tests use one density",
 [PY + "dos/dos.py", PY + "dos/hilbert_transform.py", PY + "sumk/sumk_discrete.py", PY + "sumk/sumk_discrete_from_lattice.py", PY + "lattice/bz_patch.py"], [("hilbert_transform", PY + "dos/hilbert_transform.py")])
prop("C48", "Python: lattice tools build consistent lattices and superlattices",
 "Tight-binding lattice objects expose exactly the hoppings they were given; a superlattice built from any integer supercell has the same hoppings, orbitals and spectrum as the folded original, cluster and super-lattice indices convert one to one, and k-path helpers sample segments with correct end points and distances.",
 ["inputs"], "all small supercell matrices and hopping sets",
 "one model is tested",
 [PY + "lattice/super_lattice.py", PY + "lattice/tight_binding.py", PY + "lattice/utils.py", PY + "lattice/point.py", PY + "lattice/bz_patch.py"], [("folding", PY + "lattice/super_lattice.py")])
prop("C49", "Python: output capture and redirection restore the streams",
 "Capturing or redirecting standard output delivers exactly what was written during the capture, in order, and restores the original streams on every exit path, including exceptions and nesting.",
 ["histories", "fault_sequences"], "all nestings of capture, write and exception up to a depth",
 "not tested",
 [PY + "utility/capture_stdout.py", PY + "utility/redirect.py"], [("file descriptors", PY + "utility/redirect.py")])
prop("C50", "Python: comparison tools accept equal and reject different data",
 "Archive comparison and the assertion helpers report no difference exactly when the two objects have the same structure and all values agree within the stated precision, reporting every differing entry, whatever their nesting and types; repeated comparisons do not influence each other.",
 ["inputs", "histories"], "all pairs of small nested trees over an alphabet of leaves differing in one place",
 "used by tests only in the equal case",
 [PY + "utility/h5diff.py", PY + "utility/comparison_tests.py"], [("recursive compare", PY + "utility/h5diff.py")])
prop("C51", "Python: Green's function tools agree with their formulas",
 "dyson returns the missing one of (G0, G, Sigma) such that G^-1 = G0^-1 - Sigma for scalar, matrix and block functions; delta and make_delta return the hybridisation iw - eps - G0^-1; inverse, conjugate and transpose give at every point the inverse, complex conjugate and transposed value, for functions and for lazy expressions; the discretised bath returned for any hybridisation rebuilds the hybridisation it reports; text export and import give back the same function.",
 ["inputs", "programs"], "all missing members, valuednesses, block structures, lazies and values of a small alphabet",
 "tests check one function per tool",
 [PY + "gf/tools.py"], [("formulas", PY + "gf/tools.py")])
prop("C52", "Python: Green's function object slicing, arithmetic and assignment are exact",
 "The Python Green's function object's slices alias their parent, arithmetic and in-place arithmetic with numbers, matrices and other functions act on every point as the formula says and refuse mismatched meshes, copies are independent, index names select the right components, and reading what was written gives an equal object.",
 ["programs", "histories"], "all small shapes and operation sequences",
 "tests use single examples",
 [PY + "gf/gf.py", PY + "gf/mesh_product.py", PY + "gf/descriptors.py", PY + "gf/tools.py"], [("Gf", PY + "gf/gf.py")])
prop("C53", "Python: plots show the data and fits recover the function",
 "The data the plotting protocol prepares for a function, block function, histogram or expression are exactly the mesh values and function values requested (window, mode, component, labels), whatever the options; a fit returns parameters at which the model is the least-squares fit of the data in the window, and exactly the parameters of the model the data come from.",
 ["inputs"], "all small functions, windows, modes, labels and models",
 "not tested",
 [PY + "plot/protocol.py", PY + "gf/plot/plot_base.py", PY + "gf/plot/one_var.py", PY + "fit/fit.py", PY + "stat/histogram.py"], [("plot data", PY + "plot/protocol.py"), ("fit", PY + "fit/fit.py")])

# ------------------------------------------------------------------ checks
CHECKS = {}   # id -> dict(technique, level, level_note)
def check(id, technique, level, note):
    CHECKS[id] = dict(property=id, quick_cmd="python3 checks/run.py %s" % id, thorough_cmd="VERIF_TIER=thorough python3 checks/run.py %s" % id,
                      evidence_file="evidence/%s.json" % id, technique=technique, level=level, level_note=note)
NA = {}
exec(open(os.path.join(V, "tools", "claims.py")).read())

def main():
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for d in P: f.write(json.dumps(d) + "\n")
    ids = [d["id"] for d in P]
    assert len(set(ids)) == len(ids)
    assert all(i in ids for i in CHECKS), [i for i in CHECKS if i not in ids]
    m = dict(version=1, setup_cmd="python3 tools/setup.py", checks=[CHECKS[i] for i in ids if i in CHECKS],
             not_applicable=[dict(property=i, reason=NA.get(i, "no check built yet")) for i in ids if i not in CHECKS],
             notes="Checks compile their harnesses against /repo's working tree on every run; third-party libraries missing from the sandbox are replaced by stand-ins in standins/ (see DESIGN.md).")
    json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
if __name__ == "__main__": main()
