import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=None
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
T="tensap/tensor_algebra/tensors/"
p("C01","Dense tensor operations satisfy their index equations",
 "Every operation on a full tensor (arithmetic, reshape, transpose, matricize, contractions with and without diagonals, products with matrices, vectors and diagonal matrices, Kronecker product, concatenation, sub-tensor and diagonal extraction, evaluation at indices, squeeze, reductions, inner products, norms, orthogonalisation) returns the tensor whose entries are given by the defining index equation, for every shape, every order of the listed modes and every entry. Linear indices and reshapes use the first-index-fastest order throughout.",
 ["inputs"],"all orders, all mode sizes (including 1), all subsets and orders of modes, all entries",
 "tests use one shape each in the tutorials and assert nothing on entries; a wrong axis, transposition or ordering is invisible when sizes coincide or nothing is asserted",
 [T+"full_tensor.py"],[("FullTensor methods","tensap/tensor_algebra/tensors/full_tensor.py")],["entries and shape of the returned tensor"])
p("C02","All tensor formats represent the same algebra",
 "A tensor held in canonical, diagonal, sparse or tree-based format and the dense tensor it represents are interchangeable: conversion to dense, addition, subtraction, negation, scaling, Hadamard and inner products, norm, Kronecker product, mode products with matrices, vectors and diagonal matrices, evaluation at indices, diagonal evaluation, sub-tensors, concatenation and contractions give in any format the tensor obtained by the same operation on dense tensors.",
 ["inputs","configurations"],"all shapes, ranks (including rank 1 and different ranks for both operands), entries, dimension trees and subsets of active nodes",
 "the tests convert a few tensors in tutorials without comparing them to dense results; identical shapes and ranks hide index mix-ups",
 [T+"canonical_tensor.py",T+"diagonal_tensor.py",T+"sparse_tensor.py",T+"tree_based_tensor.py"],
 [("CanonicalTensor","tensap/tensor_algebra/tensors/canonical_tensor.py"),("DiagonalTensor","tensap/tensor_algebra/tensors/diagonal_tensor.py"),("SparseTensor","tensap/tensor_algebra/tensors/sparse_tensor.py"),("TreeBasedTensor","tensap/tensor_algebra/tensors/tree_based_tensor.py")])
p("C03","Tensor operations leave their operands unchanged",
 "No operation that returns a new tensor, tree, or set of multi-indices, or a number, changes the value observable through its operands: after the call every operand (tensor in any format, dimension tree, list of matrices, index array, tolerance or truncation setting) still represents exactly what it did before, so repeating the call gives the same result.",
 ["inputs","histories"],"all operations, formats, operand values and sequences of calls",
 "tests use each object once or overwrite it, so a mutated operand is never looked at again",
 [T+"full_tensor.py",T+"canonical_tensor.py",T+"diagonal_tensor.py",T+"sparse_tensor.py",T+"tree_based_tensor.py",T+"dimension_tree.py","tensap/tensor_algebra/tools/truncator.py","tensap/tools/multi_indices.py"],
 [("deepcopy before modification","tensap/tensor_algebra/tensors/tree_based_tensor.py"),("FullTensor copy constructor","tensap/tensor_algebra/tensors/full_tensor.py")])
p("C04","Tree tensor re-representations preserve the tensor",
 "Changing the representation of a tensor in tree-based format (orthogonalisation at the root or at any node, change of root, permutation of leaves or of nodes, activation and inactivation of nodes, removal of nodes with a single child, squeezing) leaves the represented tensor unchanged up to the documented permutation or reshape, for every tree and every set of active nodes. After orthogonalisation at a node, the frames that the rest of the tree attaches to the modes of that node are orthonormal (so its core carries the norm), and Gramians and singular values at a node are those of the corresponding matricisation of the represented tensor.",
 ["inputs","configurations","histories"],"all dimension trees, active-node sets, ranks, sizes, entries and compositions of the operations",
 "tests exercise balanced or linear trees with all nodes active and never compare the tensor before and after",
 [T+"tree_based_tensor.py",T+"dimension_tree.py",T+"full_tensor.py"],[("orth, orth_at_node, gramians, change_root, permute, inactivate/activate","tensap/tensor_algebra/tensors/tree_based_tensor.py")])
p("C05","Truncation meets the requested tolerance or rank",
 "Truncating a tensor (singular value decomposition, higher-order, leaves-to-root and root-to-leaves hierarchical and tensor-train truncation, in all formats) with a relative tolerance returns an approximation whose Frobenius error is at most that tolerance times the norm of the input; with a maximum rank (one number, or one per node or mode) no rank exceeds it, the matrix truncation is a best approximation of that rank, and the retained rank is the smallest that meets the tolerance. A truncator can be reused on any later tensor with the same guarantee.",
 ["inputs","histories"],"all tensors, trees, tolerances, maximal ranks and histories of use of the same truncator",
 "tutorials truncate a handful of tensors and print errors; the guarantee is over all spectra (ties, zeros, rank-deficient) and reuse histories",
 ["tensap/tensor_algebra/tools/truncator.py",T+"tree_based_tensor.py",T+"full_tensor.py"],[("Truncator","tensap/tensor_algebra/tools/truncator.py")],
 state=[("Truncator.max_rank / tolerance","requested accuracy","tensap/tensor_algebra/tools/truncator.py")])
p("C06","Dimension trees stay well formed under every operation",
 "Every dimension tree built or derived by the library is a rooted tree whose nodes carry exactly the union of the dimensions of their children and whose leaves partition the dimensions; parents, children, siblings, levels, arity, ascendants, descendants and paths are those of that tree. Equality of trees means the same hierarchy of dimension subsets, and sub-tree extraction, change of root, node insertion, dimension changes and the balanced, linear, random, trivial and arity-bounded constructors produce the tree they describe.",
 ["inputs","configurations"],"all trees, numbers of dimensions, dimension permutations, nodes and sequences of operations",
 "tests build three trees of a fixed shape and compare nothing about their structure",
 [T+"dimension_tree.py"],[("DimensionTree","tensap/tensor_algebra/tensors/dimension_tree.py")])
p("C07","Multi-index sets behave as sets with the documented members",
 "A set of multi-indices contains each index once, and union, difference, addition, removal, products, translation, subset and equality tests, sorting, indexing and conversions between multi-indices and linear positions agree with the corresponding set operations and with first-index-fastest numbering. The product, bounded-norm and hyperbolic-cross constructors contain exactly the indices satisfying their definition, and margins, reduced margins, maximal elements, envelopes, downward closure and monotonicity tests agree with their order-theoretic definitions.",
 ["inputs"],"all finite sets, dimensions, bounds, weights and norms",
 "tests use at most two small sets and check sizes only indirectly",
 ["tensap/tools/multi_indices.py"],[("MultiIndices","tensap/tools/multi_indices.py")])
p("C08","Tensorization is a bijection that preserves function values",
 "For every base, resolution, dimension and ordering of digits, the map from a point to its digits and remaining coordinates and the map back are mutually inverse, digits lie in range, and the most significant digit comes first. Tensorizing a function and evaluating it at the digits of a point returns the function's value at that point, and basis, projection and interpolation on the tensorized space represent the same function of the original variables.",
 ["inputs","configurations"],"all bases >= 2, resolutions, dimensions, points of the unit cube, orderings and function outputs",
 "tutorials tensorize fixed functions with base 2 in one dimension and only print errors",
 ["tensap/functions/tensorizer.py","tensap/functions/tensorized_function.py","tensap/tools/utils.py"],[("Tensorizer.map / inverse_map","tensap/functions/tensorizer.py"),("integer_to_digits / digits_to_integer","tensap/functions/tensorizer.py")])
p("C09","Orthonormal polynomials are orthonormal and consistent",
 "For each polynomial family and every degree, point evaluation, derivatives of every order, monomial coefficients, roots-based quadrature and moments describe one and the same polynomial, and the family is orthonormal for its associated measure.",
 ["inputs"],"all degrees, points, derivative orders, families and parameters",
 "tests never compare evaluation with coefficients, derivatives or integrals",
 ["tensap/functions/polynomials/orthonormal_polynomials.py","tensap/functions/polynomials/polynomials.py"],[("recurrence coefficients and polyval / dn_polyval","tensap/functions/polynomials/orthonormal_polynomials.py")])
p("C10","Quadrature rules are exact on their polynomial space",
 "Gauss rules with n points attached to a measure integrate every polynomial of degree below 2n exactly against that measure, composite and tensor-product rules have the exactness of their factors, weights are attached to the right points, and integrating any function with a rule equals the weighted sum of its values at the rule's points.",
 ["inputs"],"all numbers of points, measures and parameters, dimensions and integrands in the exactness space",
 "tutorials use one rule on one function without comparing to the exact integral",
 ["tensap/approximation/integration/integration_rules.py","tensap/functions/polynomials/orthonormal_polynomials.py","tensap/functions/measures/random_variable.py","tensap/functions/measures/lebesgue_measure.py"],[("IntegrationRule","tensap/approximation/integration/integration_rules.py"),("gauss_integration_rule","tensap/functions/polynomials/orthonormal_polynomials.py")])
p("C11","Probability measures are internally consistent",
 "For each random variable and product measure, the cumulative distribution is the integral of the density, the quantile function is its (generalised) inverse, mean, variance and moments are those of the distribution, supports carry all the mass, transfers between variables preserve probabilities, standardisation and shifting relate the variable to its standard form, and marginals of product measures and random vectors are the selected variables in the requested order.",
 ["inputs","configurations"],"all parameters, probability levels, points, moments orders and numbers of variables",
 "tests only draw from uniform and normal variables with default parameters",
 ["tensap/functions/measures/random_variable.py","tensap/functions/measures/uniform_random_variable.py","tensap/functions/measures/normal_random_variable.py","tensap/functions/measures/discrete_random_variable.py","tensap/functions/measures/empirical_random_variable.py","tensap/functions/measures/discrete_measure.py","tensap/functions/measures/lebesgue_measure.py","tensap/functions/measures/product_measure.py","tensap/functions/measures/random_vector.py"],[("cdf / icdf / pdf / transfer / moment","tensap/functions/measures")])
p("C12","Functional bases and their linear operations agree",
 "For every basis (polynomial, piecewise polynomial, B-spline, user-defined, tabulated, cardinal, sub-basis, full and sparse tensor-product bases), values, derivatives, means, Gram matrices, inner products, conditional expectations and orthonormalisation refer to the same list of functions in the same order; basis functions of tensor-product bases are the products selected by their multi-indices. Projection reproduces every element of the span, and interpolation returns the element matching the given values at the given points.",
 ["inputs","configurations"],"all bases, sizes, dimensions, points, coefficient vectors, sub-basis selections and multi-index sets",
 "tests build a few bases with the same number of functions per dimension and never compare operations with each other",
 ["tensap/approximation/bases/functional_basis.py","tensap/approximation/bases/functional_bases.py","tensap/approximation/bases/polynomial_functional_basis.py","tensap/approximation/bases/piecewise_polynomial_functional_basis.py","tensap/approximation/bases/BSplines_functional_basis.py","tensap/approximation/bases/sub_functional_basis.py","tensap/approximation/bases/delta_functional_basis.py","tensap/approximation/bases/user_defined_functional_basis.py","tensap/approximation/bases/full_tensor_product_functional_basis.py","tensap/approximation/bases/sparse_tensor_product_functional_basis.py"],[("eval / eval_derivative / gram_matrix / mean / projection / interpolate","tensap/approximation/bases")])
p("C13","Functional tensors evaluate the function they represent",
 "A function given by a coefficient tensor (in any tensor format) and one basis per dimension, or by a coefficient array on a basis, evaluates at every point and on every tensor-product grid to the sum of coefficient times product of basis functions; partial evaluation, derivatives, gradients with respect to the tensor's parameters, expectations, variances, conditional expectations, inner products and norms are those of that function. The result does not depend on the coefficient tensor's format.",
 ["inputs","configurations"],"all coefficient tensors and formats, bases, dimensions, subsets of variables and points",
 "tutorials evaluate learned functions at random points and print errors only",
 ["tensap/functions/functional_tensor.py","tensap/approximation/bases/functional_basis_array.py"],[("FunctionalTensor","tensap/functions/functional_tensor.py"),("FunctionalBasisArray","tensap/approximation/bases/functional_basis_array.py")])
p("C14","Least-squares learning returns true minimisers and true errors",
 "Linear-model learning returns the minimiser of the stated (weighted, regularised or basis-restricted) empirical risk for every output column; the reported leave-one-out and k-fold cross-validation errors equal those obtained by actually refitting on the retained samples, and basis adaptation returns the candidate with the least reported error. Loss functions, test errors and relative errors equal their defining averages.",
 ["inputs","configurations"],"all sample sets, basis evaluations, weights, fold choices, candidate patterns and numbers of outputs",
 "tests only run learning end to end and print errors",
 ["tensap/approximation/learning/linear_model_learning_square_loss.py","tensap/approximation/learning/linear_model_learning.py","tensap/approximation/learning/loss_functions.py","tensap/approximation/learning/linear_model_learning_density_l2.py"],[("LinearModelLearningSquareLoss","tensap/approximation/learning/linear_model_learning_square_loss.py"),("loss functions","tensap/approximation/learning/loss_functions.py")])
p("C15","Model selection returns the penalised minimiser",
 "For every finite collection of models with given complexities and risks, the piecewise-constant path of selected models contains, for each value of the penalisation parameter, a minimiser of risk plus parameter times complexity with breakpoints in the right order, and the slope-heuristic selection returns the model of that path at twice the calibrated parameter.",
 ["inputs"],"all finite lists of complexities and risks (with ties and unordered input) and penalty shapes",
 "tutorials call it on a learned sequence without checking minimality",
 ["tensap/approximation/tools/model_selection.py"],[("ModelSelection.lambda_path / m_lambda / slope_heuristic","tensap/approximation/tools/model_selection.py")])
p("C16","Interpolation points, grids and sampling sets are correct",
 "Full and sparse tensor-product grids enumerate exactly the documented points in the documented order, with evaluations on a grid equal to pointwise evaluations; set membership tests agree with the set; Chebyshev-type points lie in the interval; and magic points selection picks distinct points and functions by greedy maximisation so that the selected interpolation matrix is invertible whenever the functions are independent on the candidates.",
 ["inputs"],"all one-dimensional grids (of different sizes per dimension), multi-index sets, matrices and points",
 "tests use equal grids in each dimension and do not compare with pointwise evaluation",
 ["tensap/tools/grids.py","tensap/tools/chebyshev_points.py","tensap/linear_algebra/magic_indices.py","tensap/functions/sets/is_in.py"],[("FullTensorGrid / SparseTensorGrid","tensap/tools/grids.py"),("magic_indices","tensap/linear_algebra/magic_indices.py")])
p("C17","Principal component approximation from evaluations is accurate",
 "Given black-box access to entries of a tensor (or values of a function), the principal-component algorithms in tree-based, tensor-train, Tucker and hierarchical formats return approximations that reproduce exactly any tensor whose ranks do not exceed the allowed ranks when enough samples are used, that interpolate or project as requested, respect the tolerance and rank bounds, and report the number of evaluations they used.",
 ["inputs","configurations"],"all tensors of bounded ranks, trees, tolerances, ranks and sampling factors, for almost every random draw",
 "tutorials run one function and print an error",
 ["tensap/approximation/tensor_approximation/principal_component_analysis/tensor_principal_component_analysis.py","tensap/approximation/tensor_approximation/principal_component_analysis/functional_tensor_principal_component_analysis.py"],[("TensorPrincipalComponentAnalysis","tensap/approximation/tensor_approximation/principal_component_analysis/tensor_principal_component_analysis.py")])
p("C18","Function wrappers evaluate the wrapped function",
 "User-defined, tensorized, composed and stored functions return, for every array of points, output shape and evaluation mode (vectorised or point by point, on a tensor grid, with some variables fixed, with stored evaluations), exactly the value of the underlying function at each point, in the order of the points.",
 ["inputs","configurations","histories"],"all functions, output shapes, numbers of points, subsets of fixed variables and sequences of evaluations",
 "tests evaluate vectorised scalar functions only",
 ["tensap/functions/function.py","tensap/functions/user_defined_function.py","tensap/functions/compositional_model_function.py","tensap/functions/tensorized_function.py"],[("Function","tensap/functions/function.py")])
p("C19","Tensor learning returns what it reports",
 "Learning a function in canonical or tree-based format returns a function whose empirical and test errors equal the errors it reports, whose fixed-rank iterations never return an iterate with larger reported error than one it discarded when selecting the best, whose rank and tree adaptation respect their bounds and keep the represented function unchanged when only the tree or rank representation changes, and which recovers the data-generating function when it lies in the model class and the initial guess is exact.",
 ["inputs","configurations","histories"],"all training sets, bases, trees, ranks, options of the algorithms",
 "tests run the algorithms on random data and print errors only",
 ["tensap/approximation/tensor_approximation/tensor_learning/tensor_learning.py","tensap/approximation/tensor_approximation/tensor_learning/tree_based_tensor_learning.py","tensap/approximation/tensor_approximation/tensor_learning/canonical_tensor_learning.py"],[("TensorLearning.solve","tensap/approximation/tensor_approximation/tensor_learning/tensor_learning.py")])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+"\n")
