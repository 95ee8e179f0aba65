From 08a39aa4302ae0de4d5d9d84e27d53d25debed0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:41 +0000
Subject: [PATCH 01/34] fix: tensor_product(ReducedRep, MulIrrep) swapped its
 two arguments

---
 lie_nn/_src/tensor_product.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lie_nn/_src/tensor_product.py b/lie_nn/_src/tensor_product.py
index 603f91e..b8bd592 100644
--- a/lie_nn/_src/tensor_product.py
+++ b/lie_nn/_src/tensor_product.py
@@ -114,7 +114,7 @@ def tensor_product(mulirrep1: MulIrrep, rep2: ReducedRep) -> ReducedRep:  # noqa
 
 @dispatch(ReducedRep, MulIrrep)
 def tensor_product(rep1: ReducedRep, mulirrep2: MulIrrep) -> ReducedRep:  # noqa: F811
-    return tensor_product(ReducedRep(A=mulirrep2.A, irreps=(mulirrep2,), Q=None), rep1)
+    return tensor_product(rep1, ReducedRep(A=mulirrep2.A, irreps=(mulirrep2,), Q=None))
 
 
 @dispatch(ReducedRep, TabulatedIrrep)
-- 
2.43.0


From d2568a19f5680907fc7e8fa078b7779f124af682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:41 +0000
Subject: [PATCH 02/34] fix: ReducedRep.continuous_generators crashed for
 groups without continuous generators

---
 lie_nn/_src/reduced_rep.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lie_nn/_src/reduced_rep.py b/lie_nn/_src/reduced_rep.py
index 98eb03c..d67c43e 100644
--- a/lie_nn/_src/reduced_rep.py
+++ b/lie_nn/_src/reduced_rep.py
@@ -110,6 +110,8 @@ class ReducedRep(Rep):
         return self._A
 
     def continuous_generators(self) -> np.ndarray:
+        if self.lie_dim == 0:
+            return np.empty((0, self.dim, self.dim))
         Xs = []
         for i in range(self.lie_dim):
             X = direct_sum(*[mul_ir.continuous_generators()[i] for mul_ir in self.irreps])
-- 
2.43.0


From 8908f8ddf9086485c9506fbfc0761d2c8295fd9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:35 +0000
Subject: [PATCH 03/34] fix: MulIrrep with multiplicity zero crashed when asked
 for its generators

---
 lie_nn/_src/reduced_rep.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lie_nn/_src/reduced_rep.py b/lie_nn/_src/reduced_rep.py
index d67c43e..9a458b0 100644
--- a/lie_nn/_src/reduced_rep.py
+++ b/lie_nn/_src/reduced_rep.py
@@ -30,14 +30,14 @@ class MulIrrep(Rep):
 
     def continuous_generators(self) -> np.ndarray:
         X = self.rep.continuous_generators()
-        if X.shape[0] == 0:
-            return np.empty((0, self.dim, self.dim))
+        if X.shape[0] == 0 or self.mul == 0:
+            return np.empty((X.shape[0], self.dim, self.dim))
         return np.stack([direct_sum(*[x for _ in range(self.mul)]) for x in X], axis=0)
 
     def discrete_generators(self) -> np.ndarray:
         H = self.rep.discrete_generators()
-        if H.shape[0] == 0:
-            return np.empty((0, self.dim, self.dim))
+        if H.shape[0] == 0 or self.mul == 0:
+            return np.empty((H.shape[0], self.dim, self.dim))
         return np.stack([direct_sum(*[x for _ in range(self.mul)]) for x in H], axis=0)
 
     def create_trivial(self) -> Rep:
-- 
2.43.0


From e7598f7e4c16873ea93a248ff944f9c70438de92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:44 +0000
Subject: [PATCH 04/34] fix: SU(n) Clebsch-Gordan coefficients with degenerate
 weights or several paths were wrong

---
 lie_nn/_src/irreps/sun.py | 88 ++++++++++-----------------------------
 1 file changed, 23 insertions(+), 65 deletions(-)

diff --git a/lie_nn/_src/irreps/sun.py b/lie_nn/_src/irreps/sun.py
index cd0ace2..85de9cd 100644
--- a/lie_nn/_src/irreps/sun.py
+++ b/lie_nn/_src/irreps/sun.py
@@ -304,77 +304,35 @@ def clebsch_gordan_eldest(S1: WEIGHT, S2: WEIGHT, M_3_eldest: GT_PATTERN) -> np.
     )
 
 
-def search_state(M_list: List[GT_PATTERN]) -> Tuple[GT_PATTERN, GT_PATTERN, int]:
-    M0 = M_list[0]
-    n = len(M0)
-    S3 = M0[0]
-
-    for Mc in M_list:
-        for Mp in S_to_Ms(S3):
-            if Mp in M_list:
-                continue
-
-            for l in range(n - 1):
-                if lower_ladder(l, Mp, Mc) != 0:
-                    return (Mc, Mp, l)
-
-    raise ValueError("No state found")
-
-
-def construct_lower_cg(
-    S1: WEIGHT,
-    S2: WEIGHT,
-    S3: WEIGHT,
-    Mp: GT_PATTERN,
-    Mc: GT_PATTERN,
-    l: int,
-    alpha: int,
-    C: np.array,
-) -> Tuple[np.ndarray, int]:
-    dimS1 = dim(S1)
-    dimS2 = dim(S2)
-    mc, mp = M_to_index(Mc), M_to_index(Mp)
-    CG = np.zeros((dimS1, dimS2))
-    for m1 in range(dimS1):
-        for m2 in range(dimS2):
-            for n1 in range(dimS1):
-                for n2 in range(dimS2):
-                    if n2 == m2:
-                        CG[n1, n2] += (
-                            C[alpha, m1, m2, mc]
-                            * lower_ladder(l, index_to_M(S1, n1), index_to_M(S1, m1))
-                            * upper_ladder(l, index_to_M(S3, mc), index_to_M(S3, mp))
-                        )
-                    if n1 == m1:
-                        CG[n1, n2] += (
-                            C[alpha, m1, m2, mc]
-                            * lower_ladder(l, index_to_M(S2, n2), index_to_M(S2, m2))
-                            * upper_ladder(l, index_to_M(S3, mc), index_to_M(S3, mp))
-                        )
-
-    return CG / np.linalg.norm(CG)
-
-
 def clebsch_gordan_matrix(S1: WEIGHT, S2: WEIGHT, S3: WEIGHT):
     dimS1 = dim(S1)
     dimS2 = dim(S2)
     dimS3 = dim(S3)
     M_eldest = tuple(S_to_Ms(S3))[-1]
     C_eldest = clebsch_gordan_eldest(S1, S2, M_eldest)
-    C = np.concatenate(
-        (
-            np.zeros((C_eldest.shape[0], dimS1, dimS2, dimS3 - 1)),
-            (C_eldest.reshape(C_eldest.shape[0], dimS1, dimS2, 1)),
-        ),
-        axis=-1,
-    )
-    M_list = [M_eldest]
-    for alpha in range(C.shape[0]):
-        while len(M_list) != dimS3:
-            Mc, Mp, l = search_state(M_list)
-            mp = M_to_index(Mp)
-            C[alpha, :, :, mp] = construct_lower_cg(S1, S2, S3, Mp, Mc, l, alpha, C)
-            M_list.append(Mp)
+    C = np.zeros((C_eldest.shape[0], dimS1, dimS2, dimS3))
+    C[..., dimS3 - 1] = C_eldest
+
+    Jm1 = lower_ladder_matrices(S1)
+    Jm2 = lower_ladder_matrices(S2)
+    Jm3 = lower_ladder_matrices(S3)
+
+    # A lowering operator decreases the sum of the entries of a GT-pattern by one.
+    # All the states of a level are therefore determined, together, by the states of the level
+    # above: sum_m <m| J- |p> C[m] = (J- x 1 + 1 x J-) C[p]   for all parents p and operators J-
+    levels = np.array([sum(map(sum, M)) for M in S_to_Ms(S3)])
+    for level in sorted(set(levels), reverse=True)[1:]:
+        (parents,) = np.nonzero(levels == level + 1)
+        (states,) = np.nonzero(levels == level)
+        lhs = Jm3[:, states][:, :, parents]  # (n - 1, num_states, num_parents)
+        rhs = np.einsum("lab,zbjp->zajlp", Jm1, C[..., parents])
+        rhs += np.einsum("lab,zibp->zialp", Jm2, C[..., parents])
+        C[..., states] = np.einsum(
+            "zijlp,lps->zijs",
+            rhs,
+            np.linalg.pinv(np.moveaxis(lhs, 1, 0).reshape(len(states), -1))
+            .reshape(len(lhs), len(parents), len(states)),
+        )
     return C
 
 
-- 
2.43.0


From 200f9d2781fe753d8f3df479ee7a4d2b46d2fd76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:52 +0000
Subject: [PATCH 05/34] fix: reduce failed on representations with
 multiplicities or in a complex basis

---
 lie_nn/_src/reduce.py | 18 ++++++++----------
 lie_nn/_src/util.py   | 27 ++++++++++++++++++++-------
 2 files changed, 28 insertions(+), 17 deletions(-)

diff --git a/lie_nn/_src/reduce.py b/lie_nn/_src/reduce.py
index 09d93e7..8790503 100644
--- a/lie_nn/_src/reduce.py
+++ b/lie_nn/_src/reduce.py
@@ -1,10 +1,9 @@
 import numpy as np
 from multipledispatch import dispatch
 
-from .infer_change_of_basis import infer_change_of_basis
 from .reduced_rep import MulIrrep, ReducedRep
 from .rep import GenericRep, Rep
-from .util import decompose_rep_into_irreps
+from .util import irreducible_subspaces
 
 
 @dispatch(MulIrrep)
@@ -27,17 +26,16 @@ def reduce(rep: Rep) -> ReducedRep:  # noqa: F811
     r"""Reduce an unknown representation to a reduced form.
     This operation is slow and should be avoided if possible.
     """
-    Ys = decompose_rep_into_irreps(np.concatenate([rep.X, rep.H]))
-    Ys = sorted(Ys, key=lambda x: x.shape[1])
+    XH = np.concatenate([rep.X, rep.H])
+    Bs = irreducible_subspaces(XH)
+    Bs = sorted(Bs, key=lambda B: B.shape[0])
     d = rep.lie_dim
     Qs = []
     irs = []
-    for Y in Ys:
-        ir = GenericRep(rep.A, Y[:d], Y[d:])
-        Q = infer_change_of_basis(ir, rep)
-        Q = np.einsum("mij->imj", Q).reshape((rep.dim, ir.dim))
-        Qs.append(Q)
-        irs.append(ir)
+    for B in Bs:
+        Y = B @ XH @ B.T.conj()
+        Qs.append(B.T.conj())
+        irs.append(GenericRep(rep.A, Y[:d], Y[d:]))
 
     Q = np.concatenate(Qs, axis=1)
     rep = ReducedRep(rep.A, tuple(MulIrrep(1, ir) for ir in irs), Q)
diff --git a/lie_nn/_src/util.py b/lie_nn/_src/util.py
index 93ec850..60ca1e5 100644
--- a/lie_nn/_src/util.py
+++ b/lie_nn/_src/util.py
@@ -560,14 +560,15 @@ def eigenspaces(
     return [(val, vec[:, i == j]) for j, val in enumerate(unique_val)]
 
 
-def decompose_rep_into_irreps(
+def irreducible_subspaces(
     X: np.array, *, epsilon: float = 1e-10, round_fn=lambda x: x
 ) -> List[np.array]:
-    """Decomposes representation into irreducible representations.
+    """Split the space on which a representation acts into irreducible stable subspaces.
     Input:
         X: np.array [num_gen, d, d] - generators of a representation.
     Output:
-        Ys: List[np.array] - list of generators of irreducible representations.
+        Bs: List[np.array] - list of orthonormal bases (as rows, B @ B.T.conj() = 1) such that
+            X @ B.T.conj() = B.T.conj() @ Y with Y = B @ X @ B.T.conj() irreducible.
     """
     Q = infer_change_of_basis(X, X, epsilon=epsilon, round_fn=round_fn)  # X @ Q == Q @ X
     w = np.random.rand(len(Q))
@@ -575,13 +576,25 @@ def decompose_rep_into_irreps(
     val, vec = np.linalg.eig(M)
     stable_spaces = eigenspaces(val, vec, epsilon=epsilon)
 
-    Ys = []
+    Bs = []
     for _, W in stable_spaces:
-        B = gram_schmidt(W.T, epsilon=epsilon)  # Make an orthonormal projector
+        B = gram_schmidt(W.T.conj(), epsilon=epsilon)  # Make an orthonormal projector
         B = gram_schmidt(B.T.conj() @ B, epsilon=epsilon, round_fn=round_fn)  # Make it sparse!!
+        Bs += [B]
+    return Bs
+
 
-        Ys += [B @ X @ B.T.conj()]
-    return Ys
+def decompose_rep_into_irreps(
+    X: np.array, *, epsilon: float = 1e-10, round_fn=lambda x: x
+) -> List[np.array]:
+    """Decomposes representation into irreducible representations.
+    Input:
+        X: np.array [num_gen, d, d] - generators of a representation.
+    Output:
+        Ys: List[np.array] - list of generators of irreducible representations.
+    """
+    Bs = irreducible_subspaces(X, epsilon=epsilon, round_fn=round_fn)
+    return [B @ X @ B.T.conj() for B in Bs]
 
 
 def is_irreducible(X: np.array, *, epsilon: float = 1e-10) -> bool:
-- 
2.43.0


From fcaefe9bc3086c05a716b8f4e987d06b4a4c438f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:42 +0000
Subject: [PATCH 06/34] fix: is_real returned True for pseudoreal irreducible
 representations

---
 lie_nn/_src/real.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lie_nn/_src/real.py b/lie_nn/_src/real.py
index eefc524..7d3aac6 100644
--- a/lie_nn/_src/real.py
+++ b/lie_nn/_src/real.py
@@ -6,6 +6,10 @@ import lie_nn as lie
 
 def is_real(rep: lie.Rep) -> bool:
     S = lie.infer_change_of_basis(rep, lie.conjugate(rep))
+    if S.shape[0] == 1:
+        # S @ conj(S) is proportional to the identity,
+        # the factor is positive for real and negative for pseudoreal representations
+        return bool(np.trace(S[0] @ np.conj(S[0])).real > 0)
     return S.shape[0] > 0
 
 
-- 
2.43.0


From d927083f76d1bdffefc344b9f242448a2698156f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:42 +0000
Subject: [PATCH 07/34] fix: make_explicitly_real failed when an eigenvalue was
 on the branch cut of the square root

---
 lie_nn/_src/real.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/lie_nn/_src/real.py b/lie_nn/_src/real.py
index 7d3aac6..9d355e5 100644
--- a/lie_nn/_src/real.py
+++ b/lie_nn/_src/real.py
@@ -18,7 +18,14 @@ def make_explicitly_real(rep: lie.Rep, *, round_fn=lambda x: x):
     if S.shape[0] == 0:
         raise ValueError("The representation is not real")
     assert S.shape[0] == 1
-    rep = lie.change_basis(rep, la.sqrtm(S[0]))
+    S = S[0]
+    # S is defined up to a phase, choose it such that the branch cut of the square root
+    # lies in the middle of the largest gap between the phases of the eigenvalues
+    phases = np.sort(np.angle(np.linalg.eigvals(S)))
+    gaps = np.diff(np.append(phases, phases[0] + 2 * np.pi))
+    i = np.argmax(gaps)
+    S = np.exp(1j * (np.pi - phases[i] - gaps[i] / 2)) * S
+    rep = lie.change_basis(rep, la.sqrtm(S))
     if np.linalg.norm(rep.X.imag) > 1e-10:
         raise ValueError("The representation is not real")
     return rep
-- 
2.43.0


From e3ed3c19bdd6605515dc963c331c0111db14d8fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:42 +0000
Subject: [PATCH 08/34] fix: make_explicitly_real ignored the discrete
 generators when checking its result

---
 lie_nn/_src/real.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lie_nn/_src/real.py b/lie_nn/_src/real.py
index 9d355e5..fb683fc 100644
--- a/lie_nn/_src/real.py
+++ b/lie_nn/_src/real.py
@@ -26,6 +26,6 @@ def make_explicitly_real(rep: lie.Rep, *, round_fn=lambda x: x):
     i = np.argmax(gaps)
     S = np.exp(1j * (np.pi - phases[i] - gaps[i] / 2)) * S
     rep = lie.change_basis(rep, la.sqrtm(S))
-    if np.linalg.norm(rep.X.imag) > 1e-10:
+    if np.linalg.norm(rep.X.imag) > 1e-10 or np.linalg.norm(rep.H.imag) > 1e-10:
         raise ValueError("The representation is not real")
     return rep
-- 
2.43.0


From 1d3f48d852fbbe9960c06c8d53a263aed3f2e3ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:05 +0000
Subject: [PATCH 09/34] fix: reduced_tensor_product_basis crashed when an irrep
 has no overlap with the permutation basis

---
 lie_nn/_src/reduced_tensor_product.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lie_nn/_src/reduced_tensor_product.py b/lie_nn/_src/reduced_tensor_product.py
index 8d113f5..c69ebe1 100644
--- a/lie_nn/_src/reduced_tensor_product.py
+++ b/lie_nn/_src/reduced_tensor_product.py
@@ -354,6 +354,8 @@ def constrain_rotation_basis_by_permutation_basis(
         R = np.reshape(R, (-1, mul)).T  # (mul, dim)
 
         perm_opt = perm[~np.all(perm[:, ~np.all(R == 0, axis=0)] == 0, axis=1)]
+        if perm_opt.shape[0] == 0:
+            continue
         P, _ = basis_intersection(R, perm_opt, epsilon=epsilon, round_fn=round_fn)
 
         if P.shape[0] > 0:
-- 
2.43.0


From fd33fcf1ab7bf2c6df1238f2917dc9028b5fd8f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:05 +0000
Subject: [PATCH 10/34] fix: basis_intersection forgot the complex conjugation
 for complex bases

---
 lie_nn/_src/util.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/lie_nn/_src/util.py b/lie_nn/_src/util.py
index 60ca1e5..a55d904 100644
--- a/lie_nn/_src/util.py
+++ b/lie_nn/_src/util.py
@@ -419,10 +419,12 @@ def basis_intersection(
     basis1 = np.reshape(basis1, (basis1.shape[0], -1))
     basis2 = np.reshape(basis2, (basis2.shape[0], -1))
 
+    conj1 = np.conj(basis1)
+    conj2 = np.conj(basis2)
     p = np.concatenate(
         [
-            np.concatenate([basis1 @ basis1.T, -basis1 @ basis2.T], axis=1),
-            np.concatenate([-basis2 @ basis1.T, basis2 @ basis2.T], axis=1),
+            np.concatenate([conj1 @ basis1.T, -conj1 @ basis2.T], axis=1),
+            np.concatenate([-conj2 @ basis1.T, conj2 @ basis2.T], axis=1),
         ],
         axis=0,
     )
@@ -432,10 +434,10 @@ def basis_intersection(
     v = v[:, w < epsilon]
 
     x1 = v[: basis1.shape[0], :]
-    x1 = gram_schmidt(x1 @ x1.T, epsilon=epsilon, round_fn=round_fn)
+    x1 = gram_schmidt(np.conj(x1) @ x1.T, epsilon=epsilon, round_fn=round_fn)
 
     x2 = v[basis1.shape[0] :, :]
-    x2 = gram_schmidt(x2 @ x2.T, epsilon=epsilon, round_fn=round_fn)
+    x2 = gram_schmidt(np.conj(x2) @ x2.T, epsilon=epsilon, round_fn=round_fn)
     return x1, x2
 
 
-- 
2.43.0


From 9f74831a9f0e1283dec85c9d6b68e817ab731883 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:06 +0000
Subject: [PATCH 11/34] fix: reduced_tensor_product_basis lost components for
 representations in an arbitrary basis

---
 lie_nn/_src/reduced_tensor_product.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/lie_nn/_src/reduced_tensor_product.py b/lie_nn/_src/reduced_tensor_product.py
index c69ebe1..c65658d 100644
--- a/lie_nn/_src/reduced_tensor_product.py
+++ b/lie_nn/_src/reduced_tensor_product.py
@@ -190,6 +190,12 @@ def _reduced_tensor_product_basis(
 ) -> IrrepsArray:
     dims = tuple(irps.dim for irps in irreps_tuple)
 
+    # In an arbitrary basis, the numbers involved are not square roots of rationals
+    if all(irps.Q is None for irps in irreps_tuple):
+        round_fn = round_to_sqrt_rational
+    else:
+        round_fn = lambda x: x  # noqa: E731
+
     def get_initial_basis(reduced_rep: ReducedRep, i: int) -> List[np.ndarray]:
         x = np.reshape(
             np.eye(reduced_rep.dim) if reduced_rep.Q is None else np.linalg.inv(reduced_rep.Q).T,
@@ -228,7 +234,7 @@ def _reduced_tensor_product_basis(
                 return ab.sorted().simplify()
             p = reduce_subgroup_permutation(f, perm_repr, dims)
             ab = constrain_rotation_basis_by_permutation_basis(
-                ab, p, epsilon=epsilon, round_fn=round_to_sqrt_rational
+                ab, p, epsilon=epsilon, round_fn=round_fn
             )
             return ab.sorted().simplify()
 
-- 
2.43.0


From e301c269263742499dc88e8adb4979ccf2d5cbe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:52 +0000
Subject: [PATCH 12/34] fix: SO13 Clebsch-Gordan coefficients raised an error
 for some irreps because of rounding

---
 lie_nn/_src/irreps/so13.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/lie_nn/_src/irreps/so13.py b/lie_nn/_src/irreps/so13.py
index 9b32c92..4628ea2 100644
--- a/lie_nn/_src/irreps/so13.py
+++ b/lie_nn/_src/irreps/so13.py
@@ -37,10 +37,9 @@ class SO13(
 
     @classmethod
     def clebsch_gordan(cls, rep1: "SO13", rep2: "SO13", rep3: "SO13") -> np.ndarray:
-        # Call the generic implementation
-        return lie.clebsch_gordan(
-            lie.GenericRep.from_rep(rep1), rep2, rep3, round_fn=lie.util.round_to_sqrt_rational
-        )
+        # Call the generic implementation, the intermediate results can not always be rounded
+        cg = lie.clebsch_gordan(lie.GenericRep.from_rep(rep1), rep2, rep3)
+        return lie.util.round_to_sqrt_rational(cg)
 
     @property
     def dim(rep: "SO13") -> int:
-- 
2.43.0


From 6c323d85aaf817b65e36d5de7ec851de862c8930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:52 +0000
Subject: [PATCH 13/34] fix: the fundamental weights of D_n were listed twice

---
 lie_nn/_src/lie_algebra_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lie_nn/_src/lie_algebra_utils.py b/lie_nn/_src/lie_algebra_utils.py
index ace02ad..06e52ba 100644
--- a/lie_nn/_src/lie_algebra_utils.py
+++ b/lie_nn/_src/lie_algebra_utils.py
@@ -78,7 +78,7 @@ def RootsWeightsD(rank):
         weights_2 = np.concatenate(([0.5 * sum(epsilon) - epsilon[rank - 1]], [0.5 * sum(epsilon)]))
     else:
         weights_2 = np.concatenate(
-            (weight_sum, [0.5 * sum(epsilon) - epsilon[rank - 1]], weight_sum, [0.5 * sum(epsilon)])
+            (weight_sum, [0.5 * sum(epsilon) - epsilon[rank - 1]], [0.5 * sum(epsilon)])
         )
     weights_3 = np.concatenate(([1, 1], np.zeros(rank - 2)))
     dynkin = " " * 4 * (rank - 2) + "0\n"
-- 
2.43.0


From 8b64babfc2b90e50ad58311689353a4f50cc97c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:32 +0000
Subject: [PATCH 14/34] fix: reduced_tensor_product_basis rejected equal irreps
 given for permuted indices

---
 lie_nn/_src/reduced_tensor_product.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/lie_nn/_src/reduced_tensor_product.py b/lie_nn/_src/reduced_tensor_product.py
index c65658d..6d493db 100644
--- a/lie_nn/_src/reduced_tensor_product.py
+++ b/lie_nn/_src/reduced_tensor_product.py
@@ -89,6 +89,15 @@ def _to_reducedrep(irreps) -> ReducedRep:
     return irreps
 
 
+def _same_reducedrep(rep1: ReducedRep, rep2: ReducedRep) -> bool:
+    if rep1 is rep2:
+        return True
+    if (rep1.Q is None) != (rep2.Q is None):
+        return False
+    same_irreps = tuple(rep1.irreps) == tuple(rep2.irreps)
+    return same_irreps and (rep1.Q is None or np.array_equal(rep1.Q, rep2.Q))
+
+
 def reduced_tensor_product_basis(
     formula_or_irreps_list: Union[str, List[ReducedRep]],
     *,
@@ -136,8 +145,9 @@ def reduced_tensor_product_basis(
     for _sign, p in perm_repr:
         f = "".join(f0[i] for i in p)
         for i, j in zip(f0, f):
-            if i in irreps_dict and j in irreps_dict and irreps_dict[i] != irreps_dict[j]:
-                raise RuntimeError(f"irreps of {i} and {j} should be the same")
+            if i in irreps_dict and j in irreps_dict:
+                if not _same_reducedrep(irreps_dict[i], irreps_dict[j]):
+                    raise RuntimeError(f"irreps of {i} and {j} should be the same")
             if i in irreps_dict:
                 irreps_dict[j] = irreps_dict[i]
             if j in irreps_dict:
-- 
2.43.0


From 5e73d600794295951844a0c1b9df9785cfeeeba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:57 +0000
Subject: [PATCH 15/34] fix: SU2Real Clebsch-Gordan coefficients raised an
 error for larger half-integer irreps because of rounding

---
 lie_nn/_src/irreps/su2_real.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lie_nn/_src/irreps/su2_real.py b/lie_nn/_src/irreps/su2_real.py
index c1b4f86..074e16f 100644
--- a/lie_nn/_src/irreps/su2_real.py
+++ b/lie_nn/_src/irreps/su2_real.py
@@ -56,9 +56,9 @@ class SU2Real(TabulatedIrrep):
             Q3 = change_basis_real_to_complex(rep3.j)
             C = np.einsum("ij,kl,mn,zikn->zjlm", Q1, Q2, np.conj(Q3.T), C)
         else:
-            C = clebsch_gordan(
-                GenericRep.from_rep(rep1), rep2, rep3, round_fn=round_to_sqrt_rational
-            )
+            # The intermediate results can not always be rounded
+            C = clebsch_gordan(GenericRep.from_rep(rep1), rep2, rep3)
+            C = round_to_sqrt_rational(C)
 
         assert np.all(np.abs(np.imag(C)) < 1e-5)
         return np.real(C)
-- 
2.43.0


From d61c6fffc44bf082cfe5d984e0c5e77d403d42bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:53 +0000
Subject: [PATCH 16/34] fix: nullspace returned spurious vectors because tiny
 Gram-Schmidt residuals were normalized

---
 lie_nn/_src/util.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lie_nn/_src/util.py b/lie_nn/_src/util.py
index a55d904..b594487 100644
--- a/lie_nn/_src/util.py
+++ b/lie_nn/_src/util.py
@@ -290,7 +290,9 @@ def nullspace(A: np.ndarray, *, epsilon=1e-4, round_fn=lambda x: x) -> np.ndarra
     X = vec.T[np.abs(val) < epsilon]
     X = np.conj(X.T) @ X
     X = round_fn(X)
-    X = gram_schmidt(X, round_fn=round_fn, epsilon=epsilon)
+    # X is a projector: unless the basis is complete, one of its rows is far from the span.
+    # (normalizing a tiny residual would amplify the rounding errors)
+    X = gram_schmidt(X, round_fn=round_fn, epsilon=max(epsilon, 1e-4))
     return X
 
 
@@ -581,7 +583,7 @@ def irreducible_subspaces(
     Bs = []
     for _, W in stable_spaces:
         B = gram_schmidt(W.T.conj(), epsilon=epsilon)  # Make an orthonormal projector
-        B = gram_schmidt(B.T.conj() @ B, epsilon=epsilon, round_fn=round_fn)  # Make it sparse!!
+        B = gram_schmidt(B.T.conj() @ B, epsilon=1e-4, round_fn=round_fn)  # Make it sparse!!
         Bs += [B]
     return Bs
 
-- 
2.43.0


From 4f07cee556ae8fbacd7c23135b78965d3b7f8c34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:57 +0000
Subject: [PATCH 17/34] fix: extend_basis raised an error when there is nothing
 to add (returns="E")

---
 lie_nn/_src/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lie_nn/_src/util.py b/lie_nn/_src/util.py
index b594487..e45db42 100644
--- a/lie_nn/_src/util.py
+++ b/lie_nn/_src/util.py
@@ -258,7 +258,7 @@ def extend_basis(A: np.ndarray, *, epsilon=1e-4, round_fn=lambda x: x, returns="
     if returns == "Q":
         return np.stack(Q)
     if returns == "E":
-        return np.stack(E)
+        return np.stack(E) if len(E) > 0 else np.empty((0, A.shape[1]))
 
 
 def nullspace(A: np.ndarray, *, epsilon=1e-4, round_fn=lambda x: x) -> np.ndarray:
-- 
2.43.0


From da0b9edb0a94ca0f64864addefbed76d44132502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:57 +0000
Subject: [PATCH 18/34] fix: block_diagonal discarded the imaginary part of
 complex matrices

---
 lie_nn/_src/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lie_nn/_src/util.py b/lie_nn/_src/util.py
index e45db42..755e7e1 100644
--- a/lie_nn/_src/util.py
+++ b/lie_nn/_src/util.py
@@ -162,7 +162,7 @@ def vmap(
 def block_diagonal(As: List[np.array]):
     size1 = sum([As[i].shape[1] for i in range(len(As))])
     size2 = sum([As[i].shape[2] for i in range(len(As))])
-    R = np.zeros((As[0].shape[0], size1, size2))
+    R = np.zeros((As[0].shape[0], size1, size2), dtype=np.result_type(np.float64, *As))
     shape_x = 0
     shape_y = 0
     for i in range(len(As)):
-- 
2.43.0


From 309facfb383a45a06da1da7fa53f7d84dfda2d2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:16 +0000
Subject: [PATCH 19/34] fix: limit_denominator returned 0 for a fraction whose
 denominator is the maximal one

---
 lie_nn/_src/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lie_nn/_src/util.py b/lie_nn/_src/util.py
index 755e7e1..c717692 100644
--- a/lie_nn/_src/util.py
+++ b/lie_nn/_src/util.py
@@ -74,7 +74,7 @@ def limit_denominator(n, d, max_denominator=1_000_000):
     with np.errstate(over="ignore"):
         mask = np.abs(d1 * (n2 * d0 - n0 * d2)) <= np.abs(d2 * (n1 * d0 - n0 * d1))
     return np.where(
-        d0 < max_denominator,
+        d0 <= max_denominator,
         (n0, d0),
         np.where(mask, (n2, d2), (n1, d1)),
     )
-- 
2.43.0


From 3237c7ea5063ef7f179856bad7965543de65bd8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:19 +0000
Subject: [PATCH 20/34] fix: check_algebra_vs_generators raised an error for
 groups without continuous generators

---
 lie_nn/_src/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lie_nn/_src/util.py b/lie_nn/_src/util.py
index c717692..83c6ae5 100644
--- a/lie_nn/_src/util.py
+++ b/lie_nn/_src/util.py
@@ -446,7 +446,7 @@ def basis_intersection(
 def check_algebra_vs_generators(
     A: np.ndarray, X: np.ndarray, rtol: float = 1e-10, atol: float = 1e-10, assert_: bool = False
 ):
-    left_side = vmap(vmap(commutator, (0, None), 0), (None, 0), 1)(X, X)
+    left_side = commutator(X[:, None], X[None, :])  # also works without generators
     right_side = np.einsum("ijk,kab->ijab", A, X)
     if assert_:
         np.testing.assert_allclose(left_side, right_side, rtol=rtol, atol=atol)
-- 
2.43.0


From 654933a2526c6e6cfd31bfbf53781b88d6f15c72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:19 +0000
Subject: [PATCH 21/34] fix: GenericRep.from_generators raised an error for
 groups without continuous generators

---
 lie_nn/_src/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lie_nn/_src/util.py b/lie_nn/_src/util.py
index 83c6ae5..dbbaab9 100644
--- a/lie_nn/_src/util.py
+++ b/lie_nn/_src/util.py
@@ -474,7 +474,7 @@ def infer_algebra_from_generators(
         np.ndarray: If successful, the algebra. Shape ``(n, n, n)``.
     """
     n = X.shape[0]
-    pinv = np.linalg.pinv(X.reshape((n, -1)))
+    pinv = np.linalg.pinv(X.reshape((n, X.shape[1] * X.shape[2])))
 
     algebra = np.zeros((n, n, n))
     for i in range(n):
-- 
2.43.0


From 3616f7e6f5a48095d0506bedc9dcf08f7be912bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:37 +0000
Subject: [PATCH 22/34] fix: the dimensions of the SPN and SON irreps were
 truncated instead of rounded

---
 lie_nn/_src/irreps/son.py | 2 +-
 lie_nn/_src/irreps/spn.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/lie_nn/_src/irreps/son.py b/lie_nn/_src/irreps/son.py
index d0e5bbc..59eda7a 100644
--- a/lie_nn/_src/irreps/son.py
+++ b/lie_nn/_src/irreps/son.py
@@ -50,7 +50,7 @@ class SON(TabulatedIrrep):
     @property
     def dim(rep: "SON") -> int:
         positiveroots, weylvector = root_weights(len(rep.S))[0], root_weights(len(rep.S))[2]
-        return int(weyl_dim(weights(rep), positiveroots, weylvector))
+        return int(round(weyl_dim(weights(rep), positiveroots, weylvector)))
 
     def is_scalar(rep: "SON") -> bool:
         """Equivalent to ``S=(0,...,0)``"""
diff --git a/lie_nn/_src/irreps/spn.py b/lie_nn/_src/irreps/spn.py
index 0e27c8c..2e7544e 100644
--- a/lie_nn/_src/irreps/spn.py
+++ b/lie_nn/_src/irreps/spn.py
@@ -46,7 +46,7 @@ class SPN(TabulatedIrrep):
     @property
     def dim(rep: "SPN") -> int:
         positiveroots, weylvector = root_weights(len(rep.S))[0], root_weights(len(rep.S))[2]
-        return int(weyl_dim(weights(rep), positiveroots, weylvector))
+        return int(round(weyl_dim(weights(rep), positiveroots, weylvector)))
 
     def is_scalar(rep: "SPN") -> bool:
         """Equivalent to ``S=(0,...,0)``"""
-- 
2.43.0


From e572c4a24e9182d35a6b31f2035eeb84a62eb6f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:43 +0000
Subject: [PATCH 23/34] fix: tensor_product crashed for decomposed
 representations whose parts are not tabulated

---
 lie_nn/_src/tensor_product.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/lie_nn/_src/tensor_product.py b/lie_nn/_src/tensor_product.py
index b8bd592..ab79be7 100644
--- a/lie_nn/_src/tensor_product.py
+++ b/lie_nn/_src/tensor_product.py
@@ -40,8 +40,14 @@ def tensor_product(irrep1: TabulatedIrrep, irrep2: TabulatedIrrep) -> ReducedRep
     return ReducedRep(A=irrep1.A, irreps=tuple(irreps_list), Q=Q)
 
 
+def _all_tabulated(*mulirreps: MulIrrep) -> bool:
+    return all(isinstance(mul_ir.rep, TabulatedIrrep) for mul_ir in mulirreps)
+
+
 @dispatch(MulIrrep, MulIrrep)
-def tensor_product(mulirrep1: MulIrrep, mulirrep2: MulIrrep) -> ReducedRep:  # noqa: F811
+def tensor_product(mulirrep1: MulIrrep, mulirrep2: MulIrrep) -> Rep:  # noqa: F811
+    if not _all_tabulated(mulirrep1, mulirrep2):  # the selection rule is not known
+        return tensor_product.dispatch(Rep, Rep)(mulirrep1, mulirrep2)
     assert np.allclose(mulirrep1.A, mulirrep2.A)  # same lie algebra
     m1, m2 = mulirrep1.mul, mulirrep2.mul
     tp_irreps = tensor_product(mulirrep1.rep, mulirrep2.rep)
@@ -67,7 +73,9 @@ def tensor_product(mulirrep1: MulIrrep, mulirrep2: MulIrrep) -> ReducedRep:  # n
 
 
 @dispatch(ReducedRep, ReducedRep)
-def tensor_product(rep1: ReducedRep, rep2: ReducedRep) -> ReducedRep:  # noqa: F811
+def tensor_product(rep1: ReducedRep, rep2: ReducedRep) -> Rep:  # noqa: F811
+    if not _all_tabulated(*rep1.irreps, *rep2.irreps):  # the selection rule is not known
+        return tensor_product.dispatch(Rep, Rep)(rep1, rep2)
     q1 = np.eye(rep1.dim) if rep1.Q is None else rep1.Q
     q2 = np.eye(rep2.dim) if rep2.Q is None else rep2.Q
     Q_tp = np.einsum("ij,kl->ikjl", q1, q2).reshape(rep1.dim * rep2.dim, rep1.dim * rep2.dim)
-- 
2.43.0


From 882a4177036c3eed6462d3a2ffe70837cf81c663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:48 +0000
Subject: [PATCH 24/34] fix: reduced tensor products of nine or more indices
 could mix up the indices

---
 lie_nn/_src/reduced_tensor_product.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lie_nn/_src/reduced_tensor_product.py b/lie_nn/_src/reduced_tensor_product.py
index 6d493db..6bd44cf 100644
--- a/lie_nn/_src/reduced_tensor_product.py
+++ b/lie_nn/_src/reduced_tensor_product.py
@@ -265,7 +265,7 @@ def _reduced_tensor_product_basis(
         i, j, f = best
         del bases[j]
         del bases[i]
-        sub_irreps = tuple(irreps_tuple[i] for i in f)
+        sub_irreps = tuple(irreps_tuple[i] for i in sorted(f))
         sub_perm_repr = subrepr_permutation(f, perm_repr)
         ab = _reduced_tensor_product_basis(sub_irreps, sub_perm_repr, epsilon)
         ab = ab.reshape(tuple(dims[i] if i in f else 1 for i in range(len(dims))) + (-1,))
@@ -401,7 +401,7 @@ def reduce_subgroup_permutation(
     return_dim: bool = False,
 ) -> np.ndarray:
     sub_perm_repr = subrepr_permutation(sub_f0, perm_repr)
-    sub_dims = tuple(dims[i] for i in sub_f0)
+    sub_dims = tuple(dims[i] for i in sorted(sub_f0))
     if len(sub_perm_repr) == 1:
         if return_dim:
             return prod(sub_dims)
-- 
2.43.0


From f9438f601507a6abdcc88abafd483987ba946261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:15 +0000
Subject: [PATCH 25/34] fix: decomposing a representation rarely failed because
 eigenvalues did not converge

---
 lie_nn/_src/util.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/lie_nn/_src/util.py b/lie_nn/_src/util.py
index dbbaab9..21d6c53 100644
--- a/lie_nn/_src/util.py
+++ b/lie_nn/_src/util.py
@@ -575,9 +575,17 @@ def irreducible_subspaces(
             X @ B.T.conj() = B.T.conj() @ Y with Y = B @ X @ B.T.conj() irreducible.
     """
     Q = infer_change_of_basis(X, X, epsilon=epsilon, round_fn=round_fn)  # X @ Q == Q @ X
-    w = np.random.rand(len(Q))
-    M = np.einsum("n,nij->ij", w, Q)
-    val, vec = np.linalg.eig(M)
+    for attempt in range(10):
+        w = np.random.rand(len(Q))
+        M = np.einsum("n,nij->ij", w, Q)
+        try:
+            val, vec = np.linalg.eig(M)
+            break
+        except np.linalg.LinAlgError:
+            # The QR iterations rarely do not converge when M is a multiple of the identity up to
+            # rounding errors (X irreducible), take another combination.
+            if attempt == 9:
+                raise
     stable_spaces = eigenspaces(val, vec, epsilon=epsilon)
 
     Bs = []
-- 
2.43.0


From 22c20f7f2eba20b9b91f0274183d087e6870e393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:39 +0000
Subject: [PATCH 26/34] fix: reduced tensor products failed for representations
 with terms of multiplicity zero

---
 lie_nn/_src/reduced_tensor_product.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lie_nn/_src/reduced_tensor_product.py b/lie_nn/_src/reduced_tensor_product.py
index 6bd44cf..102be55 100644
--- a/lie_nn/_src/reduced_tensor_product.py
+++ b/lie_nn/_src/reduced_tensor_product.py
@@ -200,6 +200,12 @@ def _reduced_tensor_product_basis(
 ) -> IrrepsArray:
     dims = tuple(irps.dim for irps in irreps_tuple)
 
+    # Terms of multiplicity zero do not contribute
+    irreps_tuple = tuple(
+        ReducedRep(irps.A, tuple(mul_ir for mul_ir in irps.irreps if mul_ir.mul > 0), irps.Q)
+        for irps in irreps_tuple
+    )
+
     # In an arbitrary basis, the numbers involved are not square roots of rationals
     if all(irps.Q is None for irps in irreps_tuple):
         round_fn = round_to_sqrt_rational
-- 
2.43.0


From eaff71b8926a539e10612c3823773a2ef04dd178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:36 +0000
Subject: [PATCH 27/34] fix: products of SU2_, SU3 and SU4 irreps were not
 SU2_, SU3 and SU4 irreps

---
 lie_nn/_src/irreps/sun.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lie_nn/_src/irreps/sun.py b/lie_nn/_src/irreps/sun.py
index 85de9cd..a3238f7 100644
--- a/lie_nn/_src/irreps/sun.py
+++ b/lie_nn/_src/irreps/sun.py
@@ -412,7 +412,7 @@ class SUN(TabulatedIrrep):
         return cls(S=tuple(map(int, m.group(1).split(","))))
 
     def __mul__(rep1: "SUN", rep2: "SUN") -> List["SUN"]:
-        return map(SUN, sorted(set(mul_rep(rep1.S, rep2.S))))
+        return map(type(rep1), sorted(set(mul_rep(rep1.S, rep2.S))))
 
     @classmethod
     def clebsch_gordan(cls, rep1: "SUN", rep2: "SUN", rep3: "SUN") -> np.ndarray:
-- 
2.43.0


From 0990661d84efe3fd7b3d672a0fa32a8094f2c4c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:45 +0000
Subject: [PATCH 28/34] fix: direct sums of many matrices exceeded the
 recursion limit

---
 lie_nn/_src/util.py | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/lie_nn/_src/util.py b/lie_nn/_src/util.py
index 21d6c53..1a7c680 100644
--- a/lie_nn/_src/util.py
+++ b/lie_nn/_src/util.py
@@ -194,18 +194,18 @@ def direct_sum(A, *BCD):
     """
     if len(BCD) == 0:
         return A
-    B = direct_sum(*BCD)
-
-    shape = np.broadcast_shapes(A.shape[:-2], B.shape[:-2])
-    A = np.broadcast_to(A, shape + A.shape[-2:])
-    B = np.broadcast_to(B, shape + B.shape[-2:])
-
-    m, n = A.shape[-2:]
-    p, q = B.shape[-2:]
-
-    output = np.zeros(shape=shape + (m + p, n + q), dtype=np.complex128)
-    output[..., :m, :n] = A
-    output[..., m:, n:] = B
+    matrices = (A,) + BCD
+
+    shape = np.broadcast_shapes(*[M.shape[:-2] for M in matrices])
+    m = sum(M.shape[-2] for M in matrices)
+    n = sum(M.shape[-1] for M in matrices)
+
+    output = np.zeros(shape=shape + (m, n), dtype=np.complex128)
+    i, j = 0, 0
+    for M in matrices:
+        output[..., i : i + M.shape[-2], j : j + M.shape[-1]] = M
+        i += M.shape[-2]
+        j += M.shape[-1]
     return output
 
 
-- 
2.43.0


From ae05631b54784091278629162aaf7484f24a8834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:43 +0000
Subject: [PATCH 29/34] fix: text following a label of SL2C, SO13 or SUN was
 ignored, and SUN refused blanks

---
 lie_nn/_src/irreps/sl2c.py | 2 +-
 lie_nn/_src/irreps/so13.py | 2 +-
 lie_nn/_src/irreps/sun.py  | 3 ++-
 3 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/lie_nn/_src/irreps/sl2c.py b/lie_nn/_src/irreps/sl2c.py
index 4220a6e..2050f8b 100644
--- a/lie_nn/_src/irreps/sl2c.py
+++ b/lie_nn/_src/irreps/sl2c.py
@@ -23,7 +23,7 @@ class SL2C(TabulatedIrrep):
 
     @classmethod
     def from_string(cls, s: str) -> "SL2C":
-        m = re.match(r"\((\d+),(\d+)\)", s.strip())
+        m = re.fullmatch(r"\((\d+),(\d+)\)", s.strip())
         assert m is not None
         return cls(l=int(m.group(1)), k=int(m.group(2)))
 
diff --git a/lie_nn/_src/irreps/so13.py b/lie_nn/_src/irreps/so13.py
index 4628ea2..24a80bf 100644
--- a/lie_nn/_src/irreps/so13.py
+++ b/lie_nn/_src/irreps/so13.py
@@ -27,7 +27,7 @@ class SO13(
 
     @classmethod
     def from_string(cls, s: str) -> "SO13":
-        m = re.match(r"\((\d+),(\d+)\)", s.strip())
+        m = re.fullmatch(r"\((\d+),(\d+)\)", s.strip())
         assert m is not None
         return cls(l=int(m.group(1)), k=int(m.group(2)))
 
diff --git a/lie_nn/_src/irreps/sun.py b/lie_nn/_src/irreps/sun.py
index a3238f7..1efc308 100644
--- a/lie_nn/_src/irreps/sun.py
+++ b/lie_nn/_src/irreps/sun.py
@@ -408,7 +408,8 @@ class SUN(TabulatedIrrep):
     @classmethod
     def from_string(cls, s: str) -> "SUN":
         # (4,3,2,1,0)
-        m = re.match(r"\((\d+(?:,\d+)*)\)", s)
+        m = re.fullmatch(r"\((\d+(?:,\d+)*)\)", s.strip())
+        assert m is not None
         return cls(S=tuple(map(int, m.group(1).split(","))))
 
     def __mul__(rep1: "SUN", rep2: "SUN") -> List["SUN"]:
-- 
2.43.0


From a94f89f850ebcbf507a3889421af38c48a9f7501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:46 +0000
Subject: [PATCH 30/34] fix: jax matrix_power and exp_map refused complex
 discrete generators

---
 lie_nn/_src/jax_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lie_nn/_src/jax_utils.py b/lie_nn/_src/jax_utils.py
index 4e8fee8..e914082 100644
--- a/lie_nn/_src/jax_utils.py
+++ b/lie_nn/_src/jax_utils.py
@@ -13,7 +13,7 @@ def static_jax_pytree(cls):
 @jax.jit
 def matrix_power(F, n):
     upper_limit = 32
-    init_carry = n, F, jnp.eye(F.shape[0])
+    init_carry = n, F, jnp.eye(F.shape[0], dtype=F.dtype)
 
     def body(carry, _):
         # One step of the iteration
@@ -24,7 +24,7 @@ def matrix_power(F, n):
 
         # No more computation necessary if n = 0
         # Is there a better way to early break rather than just returning something empty?
-        new_z = jax.lax.cond(new_n, lambda z: z @ z, lambda _: jnp.empty(z.shape), z)
+        new_z = jax.lax.cond(new_n, lambda z: z @ z, lambda _: jnp.empty(z.shape, z.dtype), z)
 
         return (new_n, new_z, new_result), None
 
-- 
2.43.0


From fbf1781b57a255299243946f255965c06dbb7717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:14 +0000
Subject: [PATCH 31/34] fix: reduced tensor products in a basis close to the
 canonical one had spurious components

basis_intersection normalized residuals as small as epsilon in its Gram-Schmidt
process, which amplifies the rounding errors.
---
 lie_nn/_src/util.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/lie_nn/_src/util.py b/lie_nn/_src/util.py
index 1a7c680..b7af112 100644
--- a/lie_nn/_src/util.py
+++ b/lie_nn/_src/util.py
@@ -435,11 +435,18 @@ def basis_intersection(
     w, v = np.linalg.eigh(p)
     v = v[:, w < epsilon]
 
-    x1 = v[: basis1.shape[0], :]
-    x1 = gram_schmidt(np.conj(x1) @ x1.T, epsilon=epsilon, round_fn=round_fn)
-
-    x2 = v[basis1.shape[0] :, :]
-    x2 = gram_schmidt(np.conj(x2) @ x2.T, epsilon=epsilon, round_fn=round_fn)
+    def row_basis(x: np.ndarray) -> np.ndarray:
+        x = np.conj(x) @ x.T
+        w = np.linalg.eigvalsh(x)
+        w = w[w > epsilon]
+        if len(w) == 0:
+            return np.empty((0, x.shape[1]), dtype=x.dtype)
+        # Unless the basis is complete, one of the rows of x is at least at min(w) / sqrt(n) from
+        # its span. (normalizing smaller residuals would amplify the rounding errors)
+        return gram_schmidt(x, epsilon=0.5 * np.min(w) / np.sqrt(len(x)), round_fn=round_fn)
+
+    x1 = row_basis(v[: basis1.shape[0], :])
+    x2 = row_basis(v[basis1.shape[0] :, :])
     return x1, x2
 
 
-- 
2.43.0


From a98b9dcf0dfbb90d92ab5d0d2e5440e93ab70b4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:36 +0000
Subject: [PATCH 32/34] fix: tensor products ignored changes of basis within
 1e-5 of the identity

---
 lie_nn/_src/tensor_product.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lie_nn/_src/tensor_product.py b/lie_nn/_src/tensor_product.py
index ab79be7..18972d2 100644
--- a/lie_nn/_src/tensor_product.py
+++ b/lie_nn/_src/tensor_product.py
@@ -98,9 +98,9 @@ def tensor_product(rep1: ReducedRep, rep2: ReducedRep) -> Rep:  # noqa: F811
     Q = Q.reshape(rep1.dim * rep2.dim, rep1.dim * rep2.dim)
     Q = Q_tp @ Q
 
-    if np.allclose(Q.imag, 0):
+    if np.allclose(Q.imag, 0, rtol=0, atol=1e-12):
         Q = Q.real
-    if np.allclose(Q, np.eye(Q.shape[0])):
+    if np.allclose(Q, np.eye(Q.shape[0]), rtol=0, atol=1e-12):
         Q = None
     return ReducedRep(A=rep1.A, irreps=tuple(mulir_list), Q=Q)
 
-- 
2.43.0


From 1a04145d60404e330ed317635eb1875a2b71bcc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:36 +0000
Subject: [PATCH 33/34] fix: is_unitary accepted discrete generators within
 1e-5 of a unitary matrix

---
 lie_nn/_src/properties.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lie_nn/_src/properties.py b/lie_nn/_src/properties.py
index 9e22991..1d84ffc 100644
--- a/lie_nn/_src/properties.py
+++ b/lie_nn/_src/properties.py
@@ -6,7 +6,8 @@ import lie_nn as lie
 def is_unitary(rep: lie.Rep) -> bool:
     X = rep.continuous_generators()
     H = rep.discrete_generators()
-    H_unit = np.allclose(H @ np.conj(np.transpose(H, (0, 2, 1))), np.eye(rep.dim), atol=1e-13)
+    HH = H @ np.conj(np.transpose(H, (0, 2, 1)))
+    H_unit = np.allclose(HH, np.eye(rep.dim), rtol=0, atol=1e-13)
     # exp(X) @ exp(X^H) = 1
     # X + X^H = 0
     X_unit = np.allclose(X + np.conj(np.transpose(X, (0, 2, 1))), 0, atol=1e-13)
-- 
2.43.0


From 2b26fe9af8d420fb8279032cbd0eaf894f8a3d7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:54 +0000
Subject: [PATCH 34/34] fix: vmap over an empty axis misplaced it for negative
 out_axes

---
 lie_nn/_src/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lie_nn/_src/util.py b/lie_nn/_src/util.py
index b7af112..acef7b8 100644
--- a/lie_nn/_src/util.py
+++ b/lie_nn/_src/util.py
@@ -124,7 +124,7 @@ def vmap(
 ):
     if out_shape is not None:
         out_shape = list(out_shape)
-        out_shape.insert(out_axes, 0)
+        out_shape.insert(out_axes if out_axes >= 0 else out_axes + len(out_shape) + 1, 0)
 
     def f(*args):
         in_axes_ = in_axes
-- 
2.43.0

