"""Properties added after the first milestone (see gen.py)."""


def more(p, S, IRR):
    OPS = [S + f for f in ("tensor_product.py", "direct_sum.py", "change_basis.py", "change_algebra.py", "conjugate.py",
                           "reduce.py", "group_product.py", "reduced_rep.py", "rep.py", "irrep.py")]
    p("C44", "A program of operations gives the representation of its formula",
      "Whatever operations a representation went through (tensor products and powers, direct sums, sums with multiplicities, "
      "changes of basis and of algebra, conjugation, reduction, group products, conversions, trivial representations), in whatever "
      "order and with whatever reuse of intermediate results, its algebra, generators and dimension are those of the formula "
      "evaluated with matrices; every intermediate result remains usable by every other operation and keeps its value.",
      ["inputs", "histories"], "programs of up to 9 operations over leaves of all kinds and groups",
      "The tests apply one operation to freshly made representations; results of operations (lazily evaluated decompositions, "
      "irreps made by selection rules, products of groups inside sums) are not fed to further operations.",
      OPS + IRR, [("multiple dispatch on kinds of representations", S + "tensor_product.py"), ("decompositions with a change of basis", S + "reduced_rep.py"),
                  ("irreps made by selection rules", S + "irreps/sun.py")],
      ["algebra()", "continuous_generators()", "discrete_generators()", "dim", "create_trivial()", "is_trivial()"],
      "the same program evaluated with plain numpy (Kronecker products, block sums, conjugation), after every step and for all "
      "values again at the end")
    p("C45", "Copies of labels and representations are as good as the originals",
      "Copying a label or a representation (copy, deepcopy, pickle), before or after its generators have been computed, gives an object "
      "of the same type with the same generators; copied labels are equal to the originals, hash and sort like them, and mix with "
      "them in products, Clebsch-Gordan coefficients and sums; deep copies do not share their arrays with the original.",
      ["inputs", "histories"], "all kinds of representations and groups, four ways of copying",
      "No test copies a representation; caches keyed by identity, or set on construction only, break there.",
      IRR + [S + "irrep.py", S + "reduced_rep.py", S + "rep.py", S + "group_product.py"],
      [("dataclasses of labels", S + "irreps/"), ("caches", S + "irreps/sun.py")],
      ["copy.copy", "copy.deepcopy", "pickle", "==", "hash", "<", "tensor_product()", "clebsch_gordan()"],
      "comparison with the original and with generators computed independently of the copy")
    p("C46", "Nonsense is refused",
      "Negative multiplicities, labels that the constructors check (negative, half-integer where an integer is needed, wrong parity, unsorted or too short weights), "
      "sums, products and intertwiners of representations with different structure constants, selection rules between different "
      "groups and changes of basis of the wrong size raise an exception instead of giving a meaningless result.",
      ["inputs"], "pairs of different groups, pairs of bases of one algebra, all kinds of representations, listed invalid labels",
      "The tests only make valid calls, so a lost assertion goes unnoticed until a user gets a wrong result silently.",
      OPS + IRR, [("assertions on the algebras", S + "tensor_product.py"), ("assertions on the labels", S + "irreps/"),
                  ("assertions in from_irreps", S + "reduced_rep.py")],
      ["exceptions of tensor_product, direct_sum, from_irreps, infer_change_of_basis, clebsch_gordan, check_representation_triplet, "
       "constructors"],
      "every listed call has to end with an exception")
    p("C47", "Rounding functions and tolerances given by the caller are honoured",
      "Functions that take a rounding function (gram_schmidt, extend_basis, nullspace, basis_intersection, infer_change_of_basis, generic "
      "Clebsch-Gordan coefficients, inferred structure constants) return values of that function that still solve their problem up to the rounding "
      "(sequential_nullspace, decompose_rep_into_irreps and make_explicitly_real use it on the way), and functions "
      "that take a tolerance (is_irreducible, infer_change_of_basis, decompose_rep_into_irreps) separate what counts as zero from what does not there.",
      ["inputs"], "np.round with 10 to 15 digits, matrices up to 12x12, representations of all groups up to dimension 6 with noise of 1e-7 to 1e-1",
      "The tests round in a handful of places to square roots of rationals and hardly ever pass a tolerance: a parameter that is accepted and "
      "ignored is invisible to them.",
      [S + f for f in ("util.py", "infer_change_of_basis.py", "clebsch_gordan.py", "is_irreducible.py", "real.py")],
      [("nullspace", S + "util.py"), ("is_irreducible", S + "is_irreducible.py"), ("clebsch_gordan", S + "clebsch_gordan.py")],
      ["results of the functions above", "calls of the rounding function"],
      "the recorded rounding function is idempotent on the results; equations, orthonormality and spans by plain numpy; number of solutions from "
      "the eigenvalues of the independent intertwining operator around the tolerance")
    p("C48", "Finite groups and groups with components tabulated by the user work",
      "A group that a user tabulates through the interface of TabulatedIrrep (cyclic groups and their products, dihedral, binary dihedral, alternating, "
      "symmetric and binary tetrahedral groups, U(1), U(1)xZ3, O(2), Pin(2)), with complex, pseudo-real or real irreps in any basis, works in every operation: "
      "products, powers, sums, changes of basis, conjugation, products of groups, Clebsch-Gordan coefficients (tabulated and inferred), intertwiners, "
      "reduction, reality, irreducibility, exp_map, texts and reduced tensor products give what the generators say.",
      ["inputs"], "23 groups with up to 30 irreps each (small charges of the infinite ones), bases of the irreps and of their sums, 19 operations",
      "The groups of the tests have real generators or no discrete ones, and equivalent conjugates; a dropped complex dtype or a "
      "conjugation on the wrong side shows only for groups such as Z3, A4 or U(1).",
      OPS + [S + "irrep.py", S + "reduced_tensor_product.py", S + "clebsch_gordan.py", S + "infer_change_of_basis.py", S + "real.py"],
      [("TabulatedIrrep", S + "irrep.py"), ("TabulatedIrrepProduct", S + "group_product.py"), ("reduced_tensor_product_basis", S + "reduced_tensor_product.py")],
      ["results of the operations above"],
      "generators written down in the check; selection rules and coefficients by solving the equations of equivariance there; Kronecker "
      "products, block sums, projectors and dimensions of spaces of intertwiners by plain numpy")
