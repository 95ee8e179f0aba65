"""Writes properties.jsonl and MANIFEST.json from the table below (run it from anywhere)."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "lie_nn/_src/"
IRR = [S + "irreps/" + f for f in
       ("o3_real.py", "sl2c.py", "so13.py", "so3_real.py", "su2.py", "su2_real.py", "sun.py", "z2.py")]

P = []


def p(pid, title, statement, over, text, why, files, mech, observe, oracle):
    P.append(dict(pid=pid, title=title, statement=statement, over=over, text=text, why=why, files=files,
                  mech=mech, observe=observe, oracle=oracle))


p("C01", "Every tabulated irrep satisfies the commutation relations of its Lie algebra",
  "For every irreducible representation of every tabulated group, the continuous generators returned to the user "
  "satisfy [X_i, X_j] = A_ijk X_k with the structure constants returned by the same object, these are antisymmetric and "
  "satisfy the Jacobi identity, and they are the same for all irreps of a group and equal to the documented ones. "
  "The trivial irrep is one-dimensional with zero generators.",
  ["inputs"], "every label of SU2, SU2Real, SO3, O3, SL2C, SO13, Z2, SU(2), SU(3), SU(4), SU(5) as tables",
  "The tests check the relations for the first few labels of each iterator; a wrong entry or a loss of precision at larger "
  "labels, or in one off-diagonal family, is not reached.",
  IRR + [S + "irrep.py"],
  [("continuous_generators / algebra of each group", S + "irreps/"), ("ladder and Gelfand-Tsetlin matrices", S + "irreps/sun.py")],
  ["continuous_generators()", "algebra()", "create_trivial()"],
  "commutators, Jacobi identity and structure constants recomputed by the monitor")
p("C02", "Parities and reality conventions of the tabulated irreps",
  "The discrete generators of a tabulated irrep square to one, act on the continuous generators by the automorphism of the "
  "group, and take the value announced by the label. The generators of the compact groups are anti-Hermitian, those of the "
  "groups declared real are real, and the boosts of the Lorentz group are Hermitian.",
  ["inputs"], "every label of every tabulated group",
  "The tests look at commutation relations only; unitarity, reality and parities are relied on by users (is_real, exp_map) "
  "but sampled nowhere.",
  IRR, [("discrete_generators", S + "irreps/"), ("change_basis_real_to_complex", S + "irreps/so3_real.py")],
  ["discrete_generators()", "continuous_generators()"],
  "direct evaluation of the relations on the arrays returned")
p("C03", "Dimension, character and irreducibility match the label",
  "The dimension announced by a tabulated irrep is that of its matrices and of the textbook formula, its character at any "
  "group element is that of the label, and it is irreducible. is_scalar and is_trivial are true exactly for the labels "
  "whose representation is the scalar or the trivial one.",
  ["inputs"], "every label of every tabulated group and every group element",
  "A representation that satisfies the algebra may still be another one than the label says (for example the conjugate, or "
  "a reducible one); no test computes a character.",
  IRR + [S + "rep.py"], [("dim / is_scalar", S + "irreps/"), ("is_trivial", S + "rep.py")],
  ["dim", "is_scalar()", "is_trivial()", "exp_map()"],
  "characters by Weyl's formula and commutant dimensions, independent of the code")
p("C04", "The product of two labels is exactly the set of constituents",
  "irrep1 * irrep2 lists every irrep contained in the tensor product once and no other, whichever the order of the factors, "
  "and the trivial irrep is neutral. Labels are equal exactly when they denote the same irrep, with equal hashes.",
  ["inputs"], "every pair of labels of every tabulated group",
  "Tests only compare dimensions of a few small pairs; multiplicities greater than one and large labels are not reached.",
  IRR + [S + "irrep.py"], [("__mul__", S + "irreps/"), ("mul_rep", S + "irreps/sun.py")],
  ["irrep1 * irrep2", "==", "hash()"],
  "an independent decomposition by characters (weights) and Littlewood-Richardson rule")
p("C05", "The enumeration of irreps is complete, sorted and starts with the trivial one",
  "Iterating over the irreps of a group gives every irrep once, starting with the trivial one, in the order of the "
  "comparison operators. This order is a strict total order, consistent with equality.",
  ["inputs", "histories"], "every group, every prefix of the enumeration, every triple of labels, interleaved iterators",
  "The tests consume a handful of elements; duplicates, omissions or order violations further on are not seen.",
  IRR, [("iterator / __lt__", S + "irreps/")], ["iterator()", "<", "sorted()"],
  "an independent enumeration of labels below a bound; transitivity, trichotomy")
p("C06", "Texts and lists of irreps are parsed into what they say",
  "A text such as '2x1+0' or the text form of any irrep, and a list of irreps, multiplicities or texts, denotes the "
  "representation with precisely these irreps, multiplicities and order, whose generators are the block-diagonal matrices of its "
  "parts; blanks around labels, multiplicities and signs do not matter. The printed form of an irrep is the python "
  "expression of an equal irrep, a multiple is printed as 'mul x irrep', a sum names its terms in order. Texts that are not "
  "labels (nothing, anything before or after a label, unfinished or repeated parts, negative multiplicities in a sum) raise an error.",
  ["inputs"], "every text and list in the accepted format, zero multiplicities included, for every group",
  "Two or three literal texts are tested.",
  IRR + [S + "reduced_rep.py"], [("from_string / from_irreps", S + "reduced_rep.py"), ("from_string", S + "irreps/")],
  ["from_string()", "from_irreps()", "repr()"],
  "the monitor builds labels and matrices itself from the text")
p("C07", "Clebsch-Gordan coefficients of tabulated irreps are equivariant",
  "Each path of the coefficients returned for three tabulated irreps intertwines the tensor product of the first two with "
  "the third, for all continuous and discrete generators and thus for all group elements, and is not zero. The shape is (number of paths, "
  "dim1, dim2, dim3).",
  ["inputs"], "every triple of labels of every tabulated group",
  "Tests use the first labels of each iterator; degenerate weights, several paths and larger labels are numerically and "
  "combinatorially different (four defects were found there).",
  IRR + [S + "clebsch_gordan.py"], [("clebsch_gordan", S + "irreps/"), ("highest weight constraint", S + "irreps/sun.py")],
  ["clebsch_gordan()"],
  "direct evaluation of the intertwining equations with generators")
p("C08", "Clebsch-Gordan coefficients are complete and orthonormal",
  "The number of paths from two irreps to a third is the multiplicity of the third in their product, zero if absent, and "
  "the coefficients of all paths together are an invertible change of basis of the tensor product, "
  "with rows orthogonal and of equal norm within each constituent for the compact groups.",
  ["inputs"], "every pair of labels of every tabulated group and every third label",
  "Equivariance holds also for an incomplete or repeated set of paths; no test counts paths or computes a rank.",
  IRR, [("clebsch_gordan", S + "irreps/")], ["clebsch_gordan()"],
  "multiplicities from characters; Gram matrix and rank of the stacked coefficients")
p("C09", "Clebsch-Gordan coefficients of arbitrary representations",
  "For representations given by their generators only, in any basis, the coefficients returned are all the intertwiners "
  "from the tensor product of the first two to the third: equivariant, linearly independent, as many as the "
  "dimension of the space of intertwiners.",
  ["inputs"], "every triple of representations of the same Lie algebra in every well conditioned basis",
  "The tests use tabulated bases, which are unitary and sparse.",
  [S + "clebsch_gordan.py", S + "infer_change_of_basis.py", S + "util.py"],
  [("clebsch_gordan for Rep", S + "clebsch_gordan.py")], ["clebsch_gordan()"],
  "known irreps in hidden bases; dimension from characters")
p("C10", "The tensor product is the Kronecker product, for every kind of representation",
  "The tensor product of two representations of any kinds has generators X1 x 1 + 1 x X2 and H1 x H2 in the order of its arguments, whichever form "
  "the result takes. The product of representations decomposed into tabulated irreps stays decomposed, with the multiplicities of the selection rule.",
  ["inputs"], "every pair of representation kinds, groups, contents, multiplicities and bases",
  "There is one implementation per pair of kinds (a swapped pair went unnoticed); tests use two or three pairs.",
  [S + "tensor_product.py"], [("tensor_product overloads", S + "tensor_product.py")], ["tensor_product()"],
  "dense Kronecker product of generators")
p("C11", "The tensor power is the repeated tensor product",
  "tensor_power(rep, n) has the generators of the n-fold Kronecker product for every n, and the trivial representation of the "
  "same group for n = 0.", ["inputs"], "every representation, kind, basis and power",
  "Only one power of one irrep is tested; the algorithm is repeated squaring, whose paths depend on the bits of n.",
  [S + "tensor_product.py"], [("tensor_power", S + "tensor_product.py")], ["tensor_power()"], "dense n-fold Kronecker product")
p("C12", "The direct sum is block diagonal",
  "The direct sum of two representations of the same group has block-diagonal generators, continuous and discrete, in the order of the "
  "arguments, with the algebra of both.", ["inputs"], "every pair of representations of every kind and group",
  "Not tested.", [S + "direct_sum.py", S + "util.py"], [("direct_sum", S + "direct_sum.py")], ["direct_sum()"],
  "dense block matrices")
p("C13", "Changing the basis conjugates the generators",
  "change_basis(rep, Q) has the generators Q X Q^-1 and Q H Q^-1 for every invertible Q; successive changes "
  "compose and the inverse undoes. Decomposed representations stay decomposed with the same irreps.",
  ["inputs"], "every representation, every invertible matrix, real or complex",
  "Tests use none or a single orthogonal matrix.", [S + "change_basis.py", S + "reduced_rep.py"],
  [("change_basis", S + "change_basis.py")], ["change_basis()"], "dense conjugation")
p("C14", "Changing the basis of the Lie algebra keeps the representation",
  "change_algebra(rep, Q) has generators Q_ij X_j, structure constants for which they satisfy the commutation relations, "
  "the same discrete generators and the same group elements for transformed parameters.",
  ["inputs"], "every representation, every invertible real or complex matrix on the algebra",
  "One random matrix per group is tested.", [S + "change_algebra.py"], [("change_algebra", S + "change_algebra.py")],
  ["change_algebra()"], "recomputed generators, commutators and group elements")
p("C15", "The conjugate representation is conjugate",
  "conjugate(rep) has the complex conjugate generators, continuous and discrete, is a representation of the same (real) Lie algebra, and "
  "conjugating twice gives the representation back.",
  ["inputs"], "every representation of every kind in every basis", "Not tested.", [S + "conjugate.py"],
  [("conjugate", S + "conjugate.py")], ["conjugate()"], "dense conjugation, characters")
p("C16", "The product of groups acts by the outer product",
  "group_product(rep1, rep2, ...) has the generators X1 x 1 and 1 x X2 and all discrete generators of both factors, with the direct sum "
  "of the algebras. The product of tabulated irreps is a tabulated irrep whose dimension, selection rule, "
  "coefficients and order are those of the pairs.",
  ["inputs"], "every pair and triple of representations of different groups",
  "One pair of groups is tested.", [S + "group_product.py"],
  [("group_product / TabulatedIrrepProduct", S + "group_product.py")], ["group_product()", "clebsch_gordan()", "*"],
  "dense outer products, coefficients checked by equivariance and completeness")
p("C17", "exp_map maps parameters to group elements, consistently for all representations",
  "exp_map is a homomorphism along one-parameter subgroups, is the matrix exponential of the generators (with real or complex parameters) times the powers of the discrete generators, and "
  "maps tensor products, direct sums and changes of basis of representations to those of the matrices. The group elements "
  "act on the generators by the adjoint action.",
  ["inputs"], "every representation, every vector of real or complex parameters, positive and negative powers",
  "One irrep at one value is tested.", [S + "rep.py"], [("exp_map", S + "rep.py")], ["exp_map()"],
  "an independent matrix exponential; identities between representations")
p("C18", "Predicates and elementary constructors tell the truth",
  "is_irreducible, is_unitary and is_trivial are true exactly if the representation is irreducible, unitary, trivial. "
  "create_trivial gives the trivial representation of the same group and from_rep a generic copy of "
  "the representation.", ["inputs"], "every representation of every kind and basis",
  "Tests do not call them on negatives.", [S + "is_irreducible.py", S + "properties.py", S + "rep.py"],
  [("is_irreducible", S + "is_irreducible.py"), ("is_unitary", S + "properties.py"), ("is_trivial / create_trivial", S + "rep.py")],
  ["is_irreducible()", "is_unitary()", "is_trivial()", "create_trivial()"],
  "representations built with the truth known in advance")
p("C19", "The jax functions agree with the numpy ones",
  "The jax versions of the exponential map and of the matrix power give, within single precision, what the numpy versions give, also "
  "when compiled, vectorised and differentiated, and tabulated irreps can be registered as static nodes of a pytree.",
  ["inputs", "configurations"], "every irrep, parameter vector, exponent; eager, jit and vmap execution", "Not tested.",
  [S + "jax_utils.py"], [("exp_map / matrix_power", S + "jax_utils.py")], ["jax exp_map()", "matrix_power()"],
  "numpy and scipy results")
p("C20", "infer_change_of_basis finds all changes of basis between two representations",
  "The matrices returned satisfy Q rho1 = rho2 Q for all generators, are normalised, linearly independent and span all "
  "the solutions; none is returned when the representations share no irrep.",
  ["inputs"], "every pair of representations, of any kind, multiplicities and well conditioned basis",
  "A single pair is tested; multiplicities, rectangular cases and complex bases are not.",
  [S + "infer_change_of_basis.py", S + "util.py"], [("infer_change_of_basis", S + "util.py")],
  ["infer_change_of_basis()"], "hidden bases, dimension of the solution space from multiplicities")
p("C21", "reduce decomposes any representation into irreps without changing it",
  "The decomposed representation returned has the same generators as its argument, and its parts are irreducible, each "
  "irrep as often as it is contained, in any basis. Representations already decomposed are kept.",
  ["inputs"], "every representation, multiplicities, well conditioned basis, finite groups and products included",
  "The only test is a flaky one on a single representation.", [S + "reduce.py", S + "util.py"],
  [("reduce", S + "reduce.py"), ("decompose_rep_into_irreps", S + "util.py")], ["reduce()"],
  "contents known in advance, equivalence by characters, generators compared")
p("C22", "Real representations are recognised and made real",
  "For absolutely irreducible representations is_real is true exactly for those equivalent to a real one, in any basis. "
  "make_explicitly_real returns an equivalent representation with real generators, continuous and discrete, whenever there is one.",
  ["inputs"], "every irrep, real, pseudoreal and complex, in every basis (unitary bases for the second)",
  "Not tested; pseudoreal irreps were accepted as real.", [S + "real.py"], [("is_real / make_explicitly_real", S + "real.py")],
  ["is_real()", "make_explicitly_real()"], "Frobenius-Schur indicator known from the label")
p("C23", "Arrays of generators are decomposed into irreducible pieces",
  "For any stack of matrices generating a completely reducible representation, decompose_rep_into_irreps returns irreducible stacks whose "
  "direct sum is equivalent to the input, and is_irreducible is true exactly if there is a single piece.",
  ["inputs"], "every completely reducible stack of matrices, continuous or finite group, any well conditioned basis",
  "Two small finite groups are tested.", [S + "util.py"],
  [("decompose_rep_into_irreps / irreducible_subspaces / eigenspaces", S + "util.py")],
  ["decompose_rep_into_irreps()", "is_irreducible()"], "contents known in advance, equivalence by intertwiners and characters")
p("C24", "Reduced tensor products span exactly the tensors with the stated index symmetry",
  "For a formula with (anti)symmetric indices and a representation per index, the basis returned is a linearly independent set of tensors, "
  "all with the symmetry stated, as many as the space has dimensions, transforming as the irreps announced. "
  "Formulas or irreps that contradict each other are refused.",
  ["inputs"], "every formula, representation per index, group and basis",
  "Four formulas in one group are tested.", [S + "reduced_tensor_product.py"],
  [("reduced_tensor_product_basis", S + "reduced_tensor_product.py"), ("permutation bases", S + "reduced_tensor_product.py")],
  ["reduced_tensor_product_basis()"], "brute force projector on the symmetric tensors; equivariance with dense generators")
p("C25", "Reduced symmetric tensor powers span exactly the symmetric tensors",
  "reduced_symmetric_tensor_product_basis(rep, n) is a basis of the totally symmetric tensors of order n, transforming as the "
  "irreps announced.", ["inputs"], "every representation, basis and order", "Two small cases are tested.",
  [S + "reduced_tensor_product.py"], [("reduced_symmetric_tensor_product_basis", S + "reduced_tensor_product.py")],
  ["reduced_symmetric_tensor_product_basis()"], "dimension binomial(d+n-1, n), permutations and generators applied to the tensors")
p("C26", "Reduced tensor products of lists span the whole product",
  "For a list of representations without symmetry, the basis returned is an invertible change of basis of the whole tensor product, "
  "transforming as the irreps announced, with indices in the order of the list.",
  ["inputs"], "every list of representations, kinds and bases", "Not tested beyond two factors.",
  [S + "reduced_tensor_product.py"], [("reduced_tensor_product_basis(list)", S + "reduced_tensor_product.py")],
  ["reduced_tensor_product_basis()"], "rank, dense generators")
p("C27", "nullspace returns an orthonormal basis of the whole kernel",
  "nullspace(A), and its sequential version for a matrix given in blocks of rows, return orthonormal rows that A annihilates, as many as "
  "the dimension of the kernel. A tolerance given by the caller separates the singular values that count as zero.", ["inputs"], "every real or complex matrix of clear rank, every division into blocks",
  "One random shape is tested; spurious vectors appeared for other ones.", [S + "util.py"],
  [("nullspace / sequential_nullspace", S + "util.py")], ["nullspace()", "sequential_nullspace()"], "SVD rank, residuals, Gram matrix")
p("C28", "gram_schmidt and extend_basis orthonormalise and complete",
  "gram_schmidt returns orthonormal rows spanning the rows of its argument, in their order; extend_basis returns orthonormal rows that complete the argument "
  "to a basis of the whole space, in each of its two forms. A tolerance given by the caller decides which residuals count as zero.", ["inputs"], "every real or complex matrix of clear rank, any shape",
  "A random square matrix is tested.", [S + "util.py"], [("gram_schmidt / extend_basis", S + "util.py")],
  ["gram_schmidt()", "extend_basis()"], "SVD ranks, spans and Gram matrices")
p("C29", "basis_intersection finds the intersection of two subspaces",
  "The two projections returned express the same vectors in both bases, and these vectors are linearly independent and span the intersection "
  "of the subspaces. A tolerance given by the caller decides which angles count as zero.", ["inputs"], "every pair of linearly independent real or complex families with clear angles, tensors of any shape",
  "Two real cases are tested.", [S + "util.py"], [("basis_intersection", S + "util.py")], ["basis_intersection()"],
  "subspaces with a prescribed intersection")
p("C30", "Rounding recovers exact fractions and square roots",
  "Numbers that are square roots of rationals with small denominators up to rounding noise are rounded to them, in arrays of any "
  "shape, real, imaginary or exact symbolic, and every other number goes to the closest square root with the denominators "
  "the caller asks for. limit_denominator returns the best "
  "rational approximation below the bound.",
  ["inputs"], "every number above the resolution, every fraction and bound", "A few values are tested; one boundary case gave 0.",
  [S + "util.py"], [("round_to_sqrt_rational / limit_denominator", S + "util.py")],
  ["round_to_sqrt_rational()", "limit_denominator()", "as_approx_integer_ratio()"], "Python's fractions module")
p("C31", "Structure constants are recovered from generators or refused",
  "For generators that close under commutation the structure constants found satisfy the relations and are the unique ones; generators that do "
  "not close, or contradict the constants, are refused, up to the tolerance the caller gives. This holds without continuous generators too.",
  ["inputs"], "every linearly independent set of generators in any basis", "Only the tabulated bases are tested.",
  [S + "util.py", S + "rep.py"], [("infer_algebra_from_generators / check_algebra_vs_generators", S + "util.py"), ("from_generators", S + "rep.py")],
  ["infer_algebra_from_generators()", "check_algebra_vs_generators()", "GenericRep.from_generators()"],
  "generators with constants known in advance, corrupted ones")
p("C32", "Array helpers compute what their names say",
  "unique_with_tol groups the values closer than the tolerance, vmap equals a loop over the axis, kron, direct_sum, block_diagonal and "
  "commutator equal their definitions, for arrays of any shape and real or complex type.",
  ["inputs"], "every array, real or complex, any shape, axis and number of arguments", "A few small arrays are tested.", [S + "util.py"],
  [("unique_with_tol, vmap, kron, direct_sum, block_diagonal, commutator", S + "util.py")],
  ["lie_nn.util functions"], "definitions evaluated by loops")
p("C33", "The regular representation of a finite group is a representation with all irreps",
  "regular_representation(table) gives permutation matrices that multiply as the table, for any group and numbering, and its "
  "decomposition contains each irrep as often as its dimension.",
  ["inputs"], "every multiplication table of a finite group in every numbering", "Two groups are tested.", [S + "util.py"],
  [("regular_representation", S + "util.py")], ["regular_representation()", "decompose_rep_into_irreps()"],
  "known irreps of cyclic, dihedral, symmetric, alternating and quaternion groups")
p("C34", "Permutations form a group and their helpers agree",
  "compose, inverse, identity, numbering, cycles, sign, generation of subgroups and group tests on permutations obey the group "
  "axioms and their definitions, and random permutations are uniformly distributed.", ["inputs"], "every permutation and every set of permutations", "Only the sign is tested.",
  [S + "discrete_groups/perm.py", S + "util.py"], [("perm.py", S + "discrete_groups/perm.py"), ("permutation_sign", S + "util.py")],
  ["perm functions", "permutation_sign()"], "itertools and an independent implementation")
p("C35", "The representations of the symmetric groups are representations",
  "The natural, standard and trivial representations of S_n given by transpositions satisfy the relations of the group, have the "
  "documented dimension, and natural = standard + trivial.",
  ["inputs"], "every n, every word in the transpositions", "Small n and sampled products are tested.", [S + "finite.py"],
  [("Sn_natural / Sn_standard / Sn_trivial", S + "finite.py")], ["lie_nn.finite"], "explicit permutation matrices, characters")
p("C36", "Root data of the classical series and dimensions of their irreps",
  "The simple roots, positive roots, fundamental weights and Cartan matrices of the series A to D are those of the textbook, consistent "
  "with each other, and the dimension formula gives the dimension of every irrep, also through the SPN labels; the dimension formula also holds for the Cartan matrices of the exceptional algebras.",
  ["inputs"], "every rank and dominant weight", "Not tested.", [S + "lie_algebra_utils.py", S + "irreps/spn.py"],
  [("RootsWeightsA..D / cartan_matrix / weyl_dim", S + "lie_algebra_utils.py"), ("SPN.dim", S + "irreps/spn.py")],
  ["RootsWeightsA..D", "cartan_matrix()", "weyl_dim()", "SPN.dim"], "Cartan matrices, root systems closed under reflections, exact dimension formulas")
p("C37", "The consistency checker accepts what is right and refuses what is wrong",
  "check_representation_triplet accepts every correct triple of representations and refuses it when a generator, a structure "
  "constant or the coefficients are corrupted by more than the tolerance given.",
  ["inputs", "fault_sequences"], "every triple of irreps, every corruption above the tolerance",
  "The tests use the checker as their oracle and never show it something wrong.", [S + "rep.py"],
  [("check_representation_triplet", S + "rep.py")], ["check_representation_triplet()"], "corruptions injected by the monitor")
p("C38", "Results do not depend on what was computed before",
  "Every call returns what it returns in a fresh process, whatever calls came before, in any order and interleaving, and whatever the caller did to "
  "the arrays returned earlier. Results already handed out do not change later.",
  ["histories"], "every sequence of calls, with results overwritten or kept by the caller",
  "The tests run functions once each; a cache that shares arrays or is keyed wrongly shows only in histories.",
  ["lie_nn/__init__.py", S + "irreps/su2.py", S + "util.py", S + "reduced_tensor_product.py"],
  [("lru_cache on coefficients and bases", S), ("labels as frozen dataclasses", S + "irreps/")], ["all public functions"],
  "the same call in a process without history; snapshots of kept results")
p("C39", "Concurrent use from several threads gives the sequential results",
  "Calls made at the same time from several threads return what they return alone.",
  ["schedules"], "every interleaving of calls of public functions in several threads",
  "The tests are single-threaded.", ["lie_nn/__init__.py", S + "util.py", S + "irreps/"],
  [("absence of shared mutable state", S)], ["all public functions"],
  "results of a single-threaded process without history; switches forced at function and line events")
p("C40", "Calls have no side effects",
  "No call modifies its arguments, the global settings of numpy or Python (error state, print options, random state, directory, recursion limit), prints anything, "
  "or needs its arguments to be writable.",
  ["inputs", "configurations"], "every public function, every argument, read-only arrays included, any global settings",
  "The tests never look at their arguments afterwards.", ["lie_nn/__init__.py", S + "util.py", S + "rep.py"],
  [("copies instead of in-place updates", S)], ["all public functions"], "snapshots before and after")
p("C41", "Results do not depend on the memory layout of the arguments",
  "A call on the same values stored in C order, Fortran order, or as a strided or reversed view gives the same result.",
  ["inputs", "configurations"], "every function taking arrays, every layout", "All tests use fresh C-ordered arrays.",
  [S + "util.py", S + "rep.py"], [("reshape / view operations", S + "util.py")], ["all functions taking arrays"],
  "the result for C order")
p("C42", "Groups tabulated by the user work everywhere",
  "A group that a user tabulates through the documented abstract interface, in any basis, can be used in products, powers, sums, texts, coefficients, "
  "products of groups, bases with symmetries and the consistency checker with the guarantees of the built-in ones.",
  ["inputs", "programs"], "every implementation of the interface that obeys its contract",
  "Only the built-in groups are tested; hidden assumptions on their bases are not visible.",
  [S + "irrep.py", S + "tensor_product.py", S + "reduced_rep.py", S + "reduced_tensor_product.py"],
  [("TabulatedIrrep interface", S + "irrep.py")], ["TabulatedIrrep subclasses"],
  "ten groups re-implemented in other bases, dense oracle")
p("C43", "Isomorphic groups and named representations agree",
  "Irreps of isomorphic algebras with corresponding labels are equivalent representations and have corresponding products (SU2, SU2_, SO3 and SU2Real; SL2C and SO13; "
  "conjugate and adjoint labels of SU(n)), and the vector, four-vector and adjoint representations are the geometric ones.",
  ["inputs"], "every label, every pair of isomorphic groups", "The groups are tested one by one, never against each other.",
  IRR, [("labels and generators", S + "irreps/"), ("four_vector", S + "irreps/so13.py")],
  ["continuous_generators()", "SO13.four_vector()"], "intertwiners computed by the monitor between independently coded groups")

from gen_more import more  # noqa: E402  (further properties)

more(p, S, IRR)

LEVEL = ("Exploration: the property held on every execution observed; inputs are seeded (VERIF_SEED) and the evidence file "
         "counts executions, checks, distinct situations and what was observed. Trusted: numpy/scipy linear algebra and the "
         "oracle code in vm/. Not covered: inputs outside of the bounds in DESIGN.md.")


def main():
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for e in P:
            assert len(e["title"]) <= 80, (e["pid"], len(e["title"]))
            f.write(json.dumps({
                "id": e["pid"], "title": e["title"], "statement": e["statement"],
                "quantifier": {"over": e["over"], "text": e["text"]},
                "why_tests_cant": e["why"],
                "anchors": {"files": e["files"],
                            "mechanism": [{"name": n, "where": w} for n, w in e["mech"]],
                            "observe_at": e["observe"], "hook_needed": None},
            }) + "\n")
    checks = [{
        "property": e["pid"],
        "quick_cmd": f"./check.sh {e['pid']} --tier quick",
        "thorough_cmd": f"./check.sh {e['pid']} --tier thorough",
        "evidence_file": f"evidence/{e['pid']}.json",
        "technique": "runtime monitoring: seeded workloads on the real code; oracle: " + e["oracle"],
        "level": "exploration", "level_note": LEVEL,
    } for e in P]
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump({"version": 1, "setup_cmd": "./check.sh selftest", "checks": checks, "not_applicable": [],
                   "notes": "No hooks in /repo: every observation is made through the public API, sys.settrace and "
                            "wrappers installed from /verif. Generated by tools/gen.py."}, f, indent=1)
        f.write("\n")


def design():
    """fills the generated sections of DESIGN.md"""
    import re

    path = os.path.join(ROOT, "DESIGN.md")
    text = open(path).read()
    import subprocess

    code = "import json; from vm import props; print(json.dumps({k: v.rule for k, v in props.REGISTRY.items()}))"
    env = dict(os.environ, PYTHONPATH=ROOT + ":/repo", PYTHONDONTWRITEBYTECODE="1", JAX_PLATFORMS="cpu")
    rules = json.loads(subprocess.run(["/opt/venv/bin/python", "-W", "ignore", "-c", code], cwd=ROOT, env=env,
                                      capture_output=True, text=True, check=True).stdout.splitlines()[-1])
    out = []
    for e in P:
        rule = rules[e["pid"]]
        out.append(f"**{e['pid']} {e['title']}.** Workload: {re.sub(' +', ' ', rule)} "
                   f"Observed: {', '.join('`' + o + '`' for o in e['observe'])}. Oracle: {e['oracle']}. "
                   f"Beyond the tests: {e['why'][0].lower() + e['why'][1:]}\n")
    text = re.sub(r"<!-- properties -->.*<!-- /properties -->",
                  lambda m: "<!-- properties -->\n" + "\n".join(out) + "<!-- /properties -->", text, flags=re.S)
    res = os.path.join(ROOT, "tools", "seeded_results.json")
    results = json.load(open(res)) if os.path.exists(res) else {}
    rows = ["| id | property | what it breaks | needs | caught by |", "|---|---|---|---|---|"]
    sd = os.path.join(ROOT, "seeded")
    for b in sorted(os.listdir(sd)) if os.path.isdir(sd) else []:
        m = json.load(open(os.path.join(sd, b, "meta.json")))
        r = results.get(b, {})
        rows.append(f"| {b} | {m['property']} | {m['what_it_breaks']} | {m['needs']} | "
                    f"{', '.join(r.get('caught', [])) or ('none' if r else 'not run')} |")
    text = re.sub(r"<!-- bugs -->.*<!-- /bugs -->",
                  lambda m: "<!-- bugs -->\n" + "\n".join(rows) + "\n<!-- /bugs -->", text, flags=re.S)
    open(path, "w").write(text)


if __name__ == "__main__":
    main()
    design()
