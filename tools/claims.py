MCk = "model_checking"
EXH = "Bounded exhaustive exploration of the real code (lib/explore.hpp: depth-first enumeration of every choice sequence, replayable): "
check("C01", EXH + "every configuration of moves, measures and runs within bounds, compared call by call with a sequential reference of the run loop.", MCk, "bounds: cycles -1..3 (5), length 1..3, two runs, 0..2 measures, every stop position; mpi and h5 are stand-ins.")
check("C02", EXH + "every sequence of move ratios (just below, at, above the acceptance number, zero, infinite, NaN, complex phases) and accept signs, over trees of moves, with a twin generator as oracle.", MCk, "bounds: 4 steps (thorough 5), 11 trees of weighted moves, two seeds.")
check("C03", EXH + "every delivery point of one or two signals: all callback points, every function entry/exit of the run, every point of the handler itself; all queue operation sequences against a list model.", MCk, "delivery at function boundaries, not between arbitrary instructions; nested delivery points of the handler enumerated in a forked process.")
check("C04", EXH + "all generators and a set of seeds over many refills against independent reference generators, and every operation sequence (call, integer and real requests, preview, moves) around a buffer refill.", MCk, "bounds: 25000 numbers per generator and seed (400000), operation sequences of 4 (5) from 8 positions.")
check("C05", EXH + "every sequence of call/preview/copy/move/assign/construct on 2-3 buffered functions of all small buffer sizes against a counter model, with state matching; all buffer sizes up to 1030 over two refills; address sanitizer on.", MCk, "bounds: depth 6 (7), buffer sizes 1..7.")
check("C06", EXH + "ranks run as fibers under a controlled scheduler: every schedule within a bound on the deviations from three base schedules and on message delays, every throwing rank and call.", MCk, "2-3 ranks, up to 3 (4) deviations; mpi::monitor is modelled (a request becomes visible after any delay).")
check("C39", EXH.replace("explore.hpp", "pyex.py") + "all slicings against the definition, and all schedules and message completions of virtual ranks running the wrapper's collective calls.", MCk, "bounds: sizes up to 12 and ranks up to 7 for slicing, 3 ranks; mpi4py is a model.")
check("C40", EXH.replace("explore.hpp", "pyex.py") + "every schedule of virtual ranks within a bound on deviations, every completion order of tasks; results compared with the map of the function over the inputs.", MCk, "bounds: 0..5 tasks, 1..3 ranks; mpi4py is a model.")
check("C41", EXH.replace("explore.hpp", "pyex.py") + "every tabulated monotone function and start point within bounds, against the definition of a root within the requested precision.", MCk, "")
check("C44", EXH.replace("explore.hpp", "pyex.py") + "all expressions up to a size, evaluated over non-commutative symbolic words and over Green's functions, transformed and printed.", MCk, "depth 2 (3); compiled Green's function modules are Python stand-ins.")
check("C45", EXH.replace("explore.hpp", "pyex.py") + "all pairs of operands, operators and sides, against complex arithmetic.", MCk, "indices -3..3, two temperatures.")
check("C49", EXH.replace("explore.hpp", "pyex.py") + "all sequences of capture, nested capture, writes and exceptions, and all schedules of the reading thread within bounds.", MCk, "")
check("C46", EXH.replace("explore.hpp", "pyex.py") + "all small block structures, name orders and single operations, and all programs of 4 (5) operations on aliasing containers, against a list of named arrays.", MCk, "1-3 blocks of size up to 3, scalar and rectangular ones; compiled modules are Python stand-ins.")
check("C51", EXH.replace("explore.hpp", "pyex.py") + "all combinations of missing member, valuedness, block structure and values of an alphabet, against the formulas evaluated point by point.", MCk, "compiled modules (tail fit, density) are Python stand-ins.")
check("C52", EXH.replace("explore.hpp", "pyex.py") + "all meshes, target shapes, operands and accesses, and all programs of 4 (5) operations on a function, two views and a copy, against numpy arrays with index bookkeeping.", MCk, "meshes of 2-5 points, products of up to three meshes, shapes up to rank 3; compiled modules are Python stand-ins.")
PYX = EXH.replace("explore.hpp", "pyex.py")
check("C42", PYX + "all shells, index quadruples, bases, conventions and an alphabet of radial integrals, parameters and rotations, against quadrature of the harmonics and the ladder construction of Clebsch-Gordan coefficients.", MCk, "l up to 3; all j up to 3 (5) for the coupling coefficients.")
check("C47", PYX + "all small energy grids, densities, arguments, self energies, hopping sets and divisions between ranks, against exact sums.", MCk, "grids of 2-5 points; the compiled lattice tools are Python stand-ins.")
check("C53", PYX + "all small functions, windows, modes and options, against the data of the function; fits over an alphabet of models, against the least-squares solution.", MCk, "matplotlib is absent; checked through the prepared data.")
check("C43", PYX + "all spin names, orbital numbers, index conventions and an alphabet of matrices with every single element, against Jordan-Wigner matrices of the documented sums.", MCk, "up to 4 modes (6 for angular momentum and symmetries); the operator algebra is a Python stand-in.")
check("C50", PYX + "all leaves, variants within and beyond the precision, positions, edits of small trees and sequences of comparisons, against the list of differing entries.", MCk, "archives in memory; precision boundaries themselves (difference equal to the precision) are left open.")
check("C48", PYX + "all small hopping sets, integer supercells, cluster sites in any order and of any representative, paths, files and points, against the unfolded sums.", MCk, "supercell entries -1..2 (-2..3) in two dimensions, a selection in three; TB_to_sympy is not covered (no sympy).")
check("C17", EXH + "all pairs and triples of an alphabet of points at and around the special values, all answers of the random generator, against exact integers modulo Nmax; sanitizers on.", MCk, "21 points (80 in the thorough tier) and their triples, six values of beta.")
check("C18", EXH + "all pairs of operands, operators and forms and all programs of four (five) operations, against complex arithmetic with a flag.", MCk, "finite values.")
check("C19", EXH + "all histories of guards (creation, move, dismissal, destruction, exception), of start, stop and clock steps of a timer, of nested levels and messages, of callbacks and clock steps, against lists and sums; the clock is a choice of the exploration.", MCk, "histories of 4 (5) guard operations, 7 (9) timer operations, 5 (7) callback operations.")
check("C20", EXH + "all tuple types of an alphabet up to length five with every helper, every subset of positions, all walks of two iterators, against loops written without the helpers; copies and moves are counted; sanitizers on.", MCk, "lengths 0..5; walks of 6 (8) operations over 0..3 elements; variant_serialize.hpp does not compile and is not used.")
check("C21", EXH + "all orders and frequency indices of a window and all sequences of resets and calls, against explicit sums, Miller recursions, power series and quadrature in long double.", MCk, "orders up to 60 (200), frequencies -60..59 (-400..399).")
check("C09", EXH + "all programs of 3 (4) operations on two operators from a set of starting operators, all products of up to five (six) canonical operators, against Jordan-Wigner matrices, with state matching on the printed operators; real, complex and real-or-complex coefficients.", MCk, "three modes with integer, string and mixed indices; dyadic coefficients.")
check("C10", EXH + "all operators of up to two monomials of bounded length over five index sequences and all orders of quartic monomials, written with and without a given set and read into empty and non-empty operators of every coefficient type.", MCk, "monomials up to length 3 (4), quartic ones in all orders; h5 is a stand-in over libhdf5.")
check("C11", EXH + "all insertion sequences and all block structures and vectors of a small alphabet of index sequences, against a list without repetitions.", MCk, "up to 4 (5) insertions, 3 blocks of size 0..3.")
check("C14", EXH + "all connection graphs on up to four (five) states, all directed ones with a hybridization on three, all subsets of a set of hopping, correlated hopping, pair and quartic terms on three and four orbitals with all pairs merged in turn, against closures computed directly.", MCk, "the Hamiltonians of the fermionic cases are subsets of 8-9 terms.")
check("C12", EXH + "all words of up to four ladder operators on every basis state of small full spaces and subspaces, all positions among 64 orbitals against several backgrounds, all sums of two words, functions as coefficients; against bit strings with explicit signs.", MCk, "3-4 orbitals exhaustively; 17, 33 and 64 orbitals with words of 2 (3) and quartic terms at 13 positions.")
check("C13", EXH + "all programs of up to four (five) operations on two states in both representations, all small ordered subspaces, full spaces of all sizes, against maps from Fock state to amplitude.", MCk, "spaces of four states for the programs; full spaces up to 14 (20) orbitals.")
check("C07", EXH + "all programs of two (three) completed operations (every kind, position and block size up to four, unsorted positions) from matrices of every size with permuted rows and columns, with state matching, against determinants and inverses of the matrix rebuilt from its arguments in long double.", MCk, "matrices up to 4x4 (5x5 after block insertions), one generic and one nearly singular table of values; relative precision 1e-9 (1e-5 near singular matrices).")
check("C08", EXH + "all events (rejected, pending and invalid tries, reservations, copies, moves, swaps, archives, also while an operation is pending) followed by all operations, pairs of events followed by a block operation; against the same reference; sanitizers on.", MCk, "matrices up to 3x3; h5 is a stand-in over libhdf5.")
check("C22", EXH + "all values of an alphabet at all ordered choices of 1-4 points, all rational functions of up to three poles with surplus points in several orders, all numbers of points for Green's functions; against the continued fraction in exact rational arithmetic.", MCk, "alphabet of six values (four for four points in the quick tier) and eight points; data without a continued fraction are left open.")
check("C34", EXH + "all configurations of bin numbers and capacities with every number of samples up to a bound, compressions at every early point, programs of fills, compressions, copies, moves and archives, all distributions of samples on up to three ranks; against the list of all samples.", MCk, "up to 70 (140) samples; real, complex and array values; h5 is a stand-in over libhdf5.")
check("C35", EXH + "all lengths up to a bound, all distributions on up to three (four) ranks with every first rank, linear and non-linear functions of one to three series, vectors and accumulators; against the definitions in long double.", MCk, "lengths 2..15 (41), 1-6 data per rank; one set of pseudo-random integers as data.")
check("C36", EXH + "all pairs of points on, next to and between the edges for a set of ranges, all programs of four (five) operations on two histograms, all fillings of up to three (four) ranks; against counted lists.", MCk, "points on an edge up to rounding may go to either neighbour unless the cell is exactly representable.")
check("C16", EXH + "all words of up to four (five) ladder operators in any order and all sums of three (four) words of an alphabet on four modes in two blocks, in real, complex and real-or-complex coefficients, all small block matrices and terms outside of a structure; rebuilt as Jordan-Wigner matrices.", MCk, "four modes; an unknown block or orbital is always refused.")

check("C15", EXH + "; dense Jordan-Wigner matrices, Eigen diagonalization and trace formulas as oracle", MCk,
 "every Hamiltonian with up to two (three when thorough) terms out of 17 (one-body, interaction, complex, spin-mixing, pairing, odd), real and complex, times nine ways of splitting the space, temperatures and three block structures with and without excluded states; every state, block, connection, matrix, 16 observables, and the Green's function at every point of five-point meshes in its four forms; a grid of interaction, chemical potential and temperature down to 1e-5")

check("C23", EXH + "all mesh types over an alphabet of sizes, end points, temperatures, statistics and options, every point, index and boundary value, all pairs of meshes for equality, all pairs of frequencies for arithmetic; against the documented formulas.", MCk, "meshes of up to 12 points; a Matsubara mesh of bosons without points is left out; cppdlr and h5 are stand-ins.")
check("C25", EXH + "all products of two of eight kinds of meshes in three sizes each and a set of products of three and four, every tuple of points; against nested loops.", MCk, "component sizes up to 3 (6 for the lattice meshes).")
check("C26", EXH + "all dimensions up to 4x3x3 (8x3x3) of 15 lattices, every point, every image in several periods, all sums of two momenta, a grid of momenta off the points; against integer arithmetic and a search over all points.", MCk, "one to three dimensions; momenta on a grid of a twelfth of the zone.")
check("C37", EXH + "15 lattices of one to three dimensions (skewed, left-handed, anisotropic) with up to three orbitals and all integer combinations of their vectors, dependent vectors; against the definitions.", MCk, "15 lattices; equality disregards positions and names of the orbitals, as implemented.")
check("C24", EXH + "all linear meshes over an alphabet of sizes and ends with arguments on, next to and between the points, Matsubara meshes with every frequency in and around them, Legendre and DLR sums, all 64 products of eight kinds of meshes with arguments of every kind, partial evaluation; against weights computed directly from the argument.", MCk, "2-6 (13) points; tails of known functions to 1e-5; linear meshes outside of their range are a violated precondition and left out; cppdlr is a stand-in.")
check("C27", EXH + "all expressions up to two operators over Green's functions of six kinds of targets and meshes, scalars, matrices and lazy expressions, in place and not, all element-wise functions, all programs of four (five) operations out of views, slices, copies, moves, swaps and assignments on three functions, all fillings by lazy expressions; against arrays computed with loops.", MCk, "meshes of up to four points, targets up to 2x2 (2x3 where shapes may differ).")
check("C29", EXH + "every single time, frequency, pole and lattice point as a unit or pole function, all mesh sizes and statistics over an alphabet, all sets of known moments, all positions of the transformed variable in products of up to three meshes, blocks; against the defining sums and analytic results.", MCk, "up to 40 times and 12 frequencies for the sums, tails to 1e-6 on larger meshes; lattices up to 4x3x2.")
check("C30", EXH + "all sequences of two (three) fits with one fitter over all orders, fractions, numbers of known moments, plain and Hermitian, on ten kinds of meshes; all windows; the frequency at every position of a product; every pair of components as a unit function for Hermiticity and half meshes; all sets of five poles for the density; all rebinnings of up to 17 (41) times; against exact Laurent series, closed forms and loops.", MCk, "orders up to 7; the density is compared to 1e-5 where the moments are fitted; the density of Legendre and DLR functions is the transpose of that of Matsubara functions, as documented.")
check("C31", EXH + "every pair of coefficients up to order 9 (16), both statistics and targets, in place and as assignments, single poles, all single-component changes of the jump; against long double quadrature of the defining integrals.", MCk, "back transforms to 1e-4, the error of the trapezoidal rule.")
check("C28", EXH + "25 types of functions (meshes, products, targets) and their blocks written from functions, views and slices and read into empty and other objects, all pairs of types for the refusals, all orders of 1-3 (4) ranks and all roots for reductions, in place or not, and broadcasts; against sums of whole numbers and the written content.", MCk, "meshes of a few points, two or three blocks; scatter and gather of functions do not compile (meshes do not define them); a broadcast supposes equal meshes on all ranks; h5 and mpi are stand-ins.")
check("C32", EXH + "all block structures of up to three by three blocks of different sizes with every constructor and factory, all expressions of a list into every kind of destination, all pairs of structures for the refusals, all programs of three (four) operations out of 20 on two functions and two views, all selections of blocks; sanitizers on.", MCk, "up to 3x3 blocks of sizes 1-3; the name of a block gf and the names seen through an assigned view are left open.")
check("C33", EXH + "all sets of one or two (three) generators out of index maps (mirrors, rotations, translations, exchanges, cyclic changes of orbitals) with every sign and conjugation on functions of five meshes and targets of rank 0-4, generic, invariant and once-perturbed data; against orbits found by search.", MCk, "meshes of up to nine points, targets up to 3x3; generators whose relations contradict each other (x = -x) are left out; the group engine of nda is a stand-in, TRIQS' part is the conversion of indices and operations.")
check("C38", EXH + "8 lattices of one to three dimensions, one to three orbitals, all sets of up to two (three) pairs of opposite hoppings with four kinds of matrices, all momenta of a grid, alone, in lists and on meshes, all paths between five momenta, all numbers of momenta and bins, all subdivisions of three patches, every single damage of the hoppings, flat bands; against direct sums, another eigen-solver and counted levels.", MCk, "displacements up to three cells; energies on the edge of a bin may go either way; the weight of a patch is its area; patches suppose one band, as documented; several entries for one displacement are left out.")
