CLAIMED['C02'] = ('proof', SYM, 'all shapes, ranks and entries for the enumerated trees (8 shapes, several numberings), active-node sets, orders 1..4 and mode lists; bounded only: sparse tensors (their storage depends on the entries), constructors from data and the functions listed under functions_bounded_or_partly')
CLAIMED['C03'] = ('proof', SYM + '; frame conditions: the term denoted by every operand and argument before the call equals the one after it', 'frame obligations of every harness of the other properties; operations whose harness is bounded (truncation, sparse storage, index sets) have bounded frame checks')
CLAIMED['C04'] = ('proof', SYM + '; QR enters by its contract (A = QR, Q orthonormal)', 'all sizes, ranks and entries for the enumerated trees and active-node sets; orth_at_node, singular values, rank decisions and large trees are bounded only')
BND = 'executable contracts (pre/postconditions and frame conditions) on the real tensap functions, evaluated at run time on generated inputs: the bounded stand-in, never counted as proved'
SCA = 'contracts on the real tensap functions; verification conditions by symbolic execution of the functions themselves with entries that are real symbols, at the sizes listed in the configurations: every comparison of entries forks, obligations discharged by a normal form of rational functions and z3; bounded stand-in for other sizes and functions'
for _i, _n in {
 'C07': 'set operations, orders, margins, envelopes, conversions and constructors: all real entries, orders and ties of index sets of at most 3 indices in dimension at most 3; larger sets are bounded only',
 'C08': 'digits, maps and tensorized functions: all points of each cell and all function values at the enumerated bases (2, 3), resolutions and dimensions; larger ones bounded only',
 'C09': 'values, derivatives and coefficients: all points and recurrence coefficients up to degree 4; orthonormality for the measure and higher degrees are bounded only (they are facts about constants in floating point)',
 'C10': 'Gauss rules, composite and tensor product rules: all recurrence coefficients, intervals, integrands with up to 3 points per dimension; larger rules bounded only',
 'C11': 'all parameters, values and probabilities at up to 3 values or 3 variables; distributions given by special functions of scipy enter by its contract',
 'C12': 'all coefficients, basis functions, points and matrices at up to 4 functions, 3 dimensions; B-splines and polynomial families given by constants are bounded only',
 'C14': 'all samples, weights and basis evaluations (up to 4 samples, 3 functions, 2 outputs) where the floating-point solver enters by its contract; larger problems bounded only',
 'C15': 'all risks and complexities, in every order and with every tie, of at most 3 models; longer lists bounded only (exact rational oracle)',
 'C16': 'grids, membership tests and magic indices for all real entries at sizes up to 3; larger ones bounded only',
 'C18': 'all values of uninterpreted functions at up to 3 points, 3 variables and the listed output shapes and histories; others bounded only'}.items():
    CLAIMED[_i] = ('other', SCA, _n)
CLAIMED['C05'] = ('other', SYM + '; truncation of a matrix enters the tensor formats by its contract, itself checked on the bounded stand-in; the error bounds are lemmas over the contracts', 'sizes, ranks and entries at the enumerated trees; the choice of the rank from the singular values: all spectra of at most 3 values, longer ones bounded only')
REL = 'contracts on the real tensap methods over trees of any size and shape: the methods are executed on integer arrays of symbolic size and contents, every loop is cut by its invariant (mechanically, from the source of this run), callees enter by their contracts, and every obligation is a first order formula decided by z3 for all trees, nodes and permutations; bounded stand-in for the methods that have no contract yet'
CLAIMED['C06'] = ('other', REL, 'no bound on the tree for the functions under contract; equality, random trees and layout as listed under functions_bounded_only are bounded (all trees of order up to 6 in the generated families)')
CLAIMED['C17'] = ('other', SCA, 'tensors of rank one and functions on grids of the listed sizes with all values; the svd enters by its contract where it is exact (rank one, square); other ranks, spectra and trees are bounded only')
CLAIMED['C19'] = ('other', SCA + '; the solver of each local problem and the estimates of errors enter by their contract', 'the flow of the algorithms (best iterate, histories, stopping, adaptation of ranks) for all answers of the solver and all errors within the iterations of the configuration; the numbers returned by whole runs are bounded only')
CLAIMED['C13'] = ('proof', SYM + '; bases enter by their contract (a matrix of values per set of points and order of derivation, a vector of means, a symmetric Gram matrix)', 'all bases, sizes, ranks, numbers of points and coefficients for the enumerated trees, active-node sets, orders 1..4 and subsets of variables; random points, arrays of points and vector-valued trees are bounded only')
