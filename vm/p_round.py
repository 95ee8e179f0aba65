"""C47: rounding functions and tolerances given by the caller."""
import numpy as np

import lie_nn as lie
from lie_nn import util

from . import orc, specs
from .core import Skip, Violation
from .p_cg import check_equivariance
from .p_infer import dims_of, mults, wrap, yy
from .p_reps import GS
from .p_util import conditioned, gap_ok, low_rank, matrix, orthonormal_rows, rand_matrix_case
from .props import prop


# (the unknowns of nearly diagonal matrices would be as small as the roundings)
KINDS = [k for k in specs.QKINDS if k not in ("near", "closer", "nearc")]
UNITARY = [k for k in specs.UNITARY if k not in ("near", "closer", "nearc")]


class Digits:
    """a rounding function that remembers how it was called"""

    def __init__(self, k):
        self.k, self.calls = k, 0

    def __call__(self, x):
        self.calls += 1
        return np.round(x, self.k)

    def has(self, x):
        return np.array_equal(np.round(x, self.k), x)


def values(obs, fn, x, what):
    obs.check(fn.has(x), f"{what}: values of the rounding function")
    obs.check(fn.calls > 0, f"{what}: the rounding function is used")


@prop("C47", "np.round with 6 to 12 digits and round_to_sqrt_rational as rounding functions, for seeded matrices, "
      "subspaces and representations of all groups; tolerances on both sides of the one singular value that matters.")
class Rounded:
    @staticmethod
    def gen(rng, tier):
        n = 700 if tier == "thorough" else 90
        out = []
        for i in range(n):
            for m in ("gs", "null", "seq"):
                c = rand_matrix_case(rng, int(rng.choice([4, 8, 12])))
                out.append({"m": m, "mat": c, "k": int(rng.integers(10, 14)), "s": int(rng.integers(10**8))})
            out.append({"m": "inter", "n": int(rng.integers(2, 9)), "c": bool(rng.integers(2)),
                        "k": int(rng.integers(10, 14)), "s": int(rng.integers(10**8))})
        for i in range(n // 3):
            for g in GS:
                md = 4 if i % 2 else 6
                a = specs.rand_red(rng, g, md, q="maybe", kinds=KINDS)
                if i % 3 == 0:  # a single irrep
                    a = {"k": "red", "t": [[1, specs.rand_tab(rng, g, md)]], "q": specs.rand_q(rng, KINDS) if i % 2 else None}
                b = {"k": "red", "t": [a["t"][j] for j in rng.permutation(len(a["t"]))], "q": specs.rand_q(rng, KINDS)}
                base = {"g": g, "a": wrap(rng, a), "b": wrap(rng, b), "s": int(rng.integers(10**8)),
                        "k": int(rng.integers(12, 14))}
                out.append(dict(base, m="icb"))
                out.append(dict(base, m="sub", k=int(rng.integers(13, 16))))
                c = [specs.rand_tab(rng, g, 4) for _ in range(2)]
                G = specs.GROUPS[g]
                prod = [l for l in sorted(orc.product(g, c[0]["l"], c[1]["l"])) if G.dim(l) <= 8]
                if prod and not any(specs.is_half(g, x["l"]) for x in c):
                    out.append(dict(base, m="cg", c=c + [specs.tab(g, *specs.pick(rng, prod))]))
                out.append(dict(base, m="eps"))
            out.append({"m": "real", "j": int(rng.integers(0, 4)), "g": specs.pick(rng, ["SO3", "SU2", "SU3", "O3"]),
                        "q": specs.rand_q(rng, UNITARY), "k": 15, "s": 0})
        return out

    @staticmethod
    def run(case, obs):
        # The roundings are amplified by the pivots of the random orthonormal bases, rarely by more than the digits
        # that are left: a violation is one that comes back with other noise and more digits.
        last = 0 if case["m"] == "gs" else 2
        for t in range(last + 1):
            k = min(case["k"] + t, 15)
            try:
                getattr(Rounded, "run_" + case["m"])(
                    dict(case, k=k), obs, np.random.default_rng(case["s"] + t), Digits(k), 10.0**-k)
                break
            except Violation:
                if t == last:
                    raise
                obs.events["repeated with more digits"] += 1
        obs.feature(case["m"], case["k"], case.get("g", ""))

    @staticmethod
    def run_gs(case, obs, rng, fn, u):
        A = matrix(case["mat"])
        if not all(gap_ok(A[: i + 1]) for i in range(len(A))):
            raise Skip("no clear rank profile")
        r, n = orc.rank(A, 1e-6), A.shape[1]
        what = f"{A.shape} of rank {r}, {case['k']} digits"
        Q = obs.call("gram_schmidt", util.gram_schmidt, A, round_fn=fn)
        obs.equal(Q.shape, (r, n), f"gram_schmidt {what}")
        obs.check(fn.has(Q) and (r == 0 or fn.calls > 0), f"gram_schmidt {what}: values of the rounding function")
        obs.close(Q @ Q.conj().T, np.eye(r), f"gram_schmidt {what}: orthonormal", 1e4 * u)
        obs.close(A @ Q.conj().T @ Q, A, f"gram_schmidt {what}: span", 1e5 * u)
        B = obs.call("extend_basis", util.extend_basis, A, round_fn=fn)
        E = obs.call("extend_basis", util.extend_basis, A, round_fn=fn, returns="E")
        obs.check(fn.has(B) and fn.has(E), f"extend_basis {what}: values of the rounding function")
        obs.equal((B.shape, E.shape), ((n, n), (n - r, n)), f"extend_basis {what}")
        obs.close(B, np.concatenate([Q, E]), f"extend_basis {what}", 1e-14)
        obs.close(B @ B.conj().T, np.eye(n), f"extend_basis {what}: orthonormal", 1e5 * u)

    @staticmethod
    def run_null(case, obs, rng, fn, u):
        A = matrix(case["mat"])
        if not gap_ok(A):
            raise Skip("no clear rank")
        n = A.shape[1]
        r = orc.rank(A, 1e-6)
        what = f"nullspace {A.shape} of rank {r}, {case['k']} digits"
        X = obs.call("nullspace", util.nullspace, A, round_fn=fn)
        obs.equal(X.shape, (n - r, n), what)
        values(obs, fn, X, what)
        obs.zero(A @ X.T, what, max(1e-9, 1e4 * u))
        obs.close(X @ X.conj().T, np.eye(n - r), f"{what}: orthonormal", max(1e-9, 1e4 * u))

    @staticmethod
    def run_seq(case, obs, rng, fn, u):
        A = matrix(case["mat"])
        i = int(rng.integers(0, len(A) + 1))
        blocks = [b for b in (A[:i], A[i:]) if len(b)]
        if not all(gap_ok(b) for b in blocks + [A]):
            raise Skip("no clear rank")
        n = A.shape[1]
        r = orc.rank(A, 1e-6)
        what = f"sequential_nullspace {[b.shape for b in blocks]} of rank {r}, {case['k']} digits"
        X = obs.call("sequential_nullspace", util.sequential_nullspace, iter(blocks), n - r, round_fn=fn)
        obs.equal(X.shape, (n - r, n), what)
        obs.check(fn.calls > 0, f"{what}: the rounding function is used")
        obs.zero(A @ X.T, what, max(1e-9, 1e5 * u))
        obs.close(X @ X.conj().T, np.eye(n - r), f"{what}: orthonormal", max(1e-9, 1e5 * u))

    @staticmethod
    def run_inter(case, obs, rng, fn, u):
        n, c = case["n"], case["c"]
        k = int(rng.integers(0, n))
        a = int(rng.integers(0, n - k + 1))
        b = int(rng.integers(0, n - k - a + 1))
        if k + a == 0 or k + b == 0:
            raise Skip("")
        E = conditioned(rng, n, n, c, 0.8, 1.3)
        common = E[:k]
        b1 = conditioned(rng, k + a, k + a, c) @ np.concatenate([common, E[k : k + a]])
        b2 = conditioned(rng, k + b, k + b, c) @ np.concatenate([common, E[k + a : k + a + b]])
        what = f"basis_intersection {k + a} and {k + b} in {n}, {case['k']} digits"
        P1, P2 = obs.call("basis_intersection", util.basis_intersection, b1, b2, round_fn=fn)
        obs.equal((P1.shape, P2.shape), ((k, k + a), (k, k + b)), what)
        values(obs, fn, P1, what)
        values(obs, fn, P2, what)
        if k:
            # in the span of the common vectors, and all of it
            for P, B in ((P1, b1), (P2, b2)):
                C = P @ B
                p = np.linalg.pinv(common) @ common
                obs.zero(C - C @ p, what, max(1e-6, 1e5 * u))
                obs.check(orc.rank(C, 1e-2) == k, f"{what}: all of the intersection")

    @staticmethod
    def run_icb(case, obs, rng, fn, u):
        a, b = specs.build(case["a"]), specs.build(case["b"])
        Y1, Y2 = yy(specs.dense(case["a"])), yy(specs.dense(case["b"]))
        d = Y1.shape[1]
        n = orc.hom_dim(Y1, Y2, 1e-5)[0]
        what = f"({specs.describe(case['a'])}, {specs.describe(case['b'])}), {case['k']} digits"
        S = obs.call("infer_change_of_basis", lie.infer_change_of_basis, a, b, round_fn=fn)
        obs.equal(S.shape, (n, d, d), f"infer_change_of_basis{what}")
        values(obs, fn, S, f"infer_change_of_basis{what}")
        obs.close(np.einsum("aij,bjk->baik", Y2, S), np.einsum("bij,ajk->baik", S, Y1),
                  f"infer_change_of_basis{what}", 1e-6)
        F = S.reshape(n, -1)
        obs.close(F @ F.conj().T, d * np.eye(n), f"infer_change_of_basis{what}: independent, normalised", 1e-7)
        fn.calls = 0
        T = obs.call("util.infer_change_of_basis", util.infer_change_of_basis, Y2, Y1, round_fn=fn)
        obs.equal(T.shape, (n, d, d), f"util.infer_change_of_basis{what}")
        values(obs, fn, T, f"util.infer_change_of_basis{what}")
        obs.close(np.einsum("aij,bjk->baik", Y2, T), np.einsum("bij,ajk->baik", T, Y1),
                  f"util.infer_change_of_basis{what}", 1e-6)

    @staticmethod
    def run_sub(case, obs, rng, fn, u):
        Y = yy(specs.dense(case["a"]))
        Y = Y.astype(complex) if np.iscomplexobj(Y) else Y.astype(float)
        d = Y.shape[1]
        want = dims_of(case["a"])
        what = f"({specs.describe(case['a'])}), {case['k']} digits"
        got = {}
        for P in obs.call("decompose_rep_into_irreps", util.decompose_rep_into_irreps, Y, epsilon=1e-6,
                          round_fn=fn):
            got[P.shape[1]] = got.get(P.shape[1], 0) + 1
            obs.equal(orc.hom_dim(P, P, 1e-5)[0], 1, f"decompose_rep_into_irreps{what}: irreducible")
            obs.check(orc.hom_dim(P, Y, 1e-3)[0] > 0, f"decompose_rep_into_irreps{what}: a part of the representation")
        obs.equal(got, want, f"decompose_rep_into_irreps{what}: dimensions")
        obs.check(fn.calls > 0, f"decompose_rep_into_irreps{what}: the rounding function is used")

    @staticmethod
    def run_cg(case, obs, rng, fn, u):
        reps = [lie.GenericRep.from_rep(specs.build(c)) for c in case["c"]]
        what = f"clebsch_gordan({', '.join(map(specs.describe, case['c']))})"
        D = [specs.dense(c)[1:] for c in case["c"]]
        d = [r.dim for r in reps]
        G = case["g"]
        m = orc.product(G, *[c["l"] for c in case["c"][:2]])[tuple(case["c"][2]["l"])]
        C = obs.call("clebsch_gordan", lie.clebsch_gordan, *reps, round_fn=fn)
        obs.equal(C.shape, (m, *d), what)
        values(obs, fn, C, f"{what}, {case['k']} digits")
        check_equivariance(obs, C, *D, what, tol=1e-7)
        T = obs.call("clebsch_gordan", lie.clebsch_gordan, *[specs.build(c) for c in case["c"]])
        obs.check(orc.same_span(C.reshape(m, -1), T.reshape(m, -1), 1e-5), f"{what}: span of the tabulated ones")

    @staticmethod
    def run_eps(case, obs, rng, fn, u):
        """tolerances: the eigenvalue of the equations that separates solutions from the others"""
        Y = yy(specs.dense(case["a"]))
        d = Y.shape[1]
        if d == 1:
            raise Skip("")
        s = 10.0 ** rng.uniform(-4, -2)
        N = rng.normal(size=Y.shape)
        if np.iscomplexobj(Y):
            N = N + 1j * rng.normal(size=Y.shape)
        Z = Y + s * N
        Z = Z.astype(complex) if np.iscomplexobj(Z) else Z.astype(float)
        M = orc.hom_operator(Z, Z)
        w = np.linalg.eigvalsh(M.conj().T @ M)
        what = f"({specs.describe(case['a'])} + noise of {s:.1g})"
        done = False
        for i in range(1, len(w)):
            lo, hi = max(w[i - 1], 1e-13), w[i]
            if hi < 30 * lo or hi < 1e-12:
                continue
            eps = float(np.sqrt(lo * hi))
            eps = min(eps, 1e-2)
            if not lo * 3 < eps < hi / 3:
                continue
            done = True
            obs.equal(bool(obs.call("util.is_irreducible", util.is_irreducible, Z, epsilon=eps)), i == 1,
                      f"util.is_irreducible{what} with epsilon {eps:.2g}, {i} solutions")
            r = lie.GenericRep(np.zeros((0, 0, 0)), np.zeros((0, d, d)), Z)
            obs.equal(bool(obs.call("is_irreducible", lie.is_irreducible, r, epsilon=eps)), i == 1,
                      f"is_irreducible{what} with epsilon {eps:.2g}, {i} solutions")
            S = obs.call("util.infer_change_of_basis", util.infer_change_of_basis, Z, Z, epsilon=eps)
            obs.equal(S.shape, (i, d, d), f"util.infer_change_of_basis{what} with epsilon {eps:.2g}")
            S = S.reshape(i, d * d)
            obs.check(np.linalg.norm(M @ S.T, axis=0).max() < 3 * np.sqrt(lo * i) + 1e-6,
                      f"util.infer_change_of_basis{what} with epsilon {eps:.2g}: solutions")
        # subspaces that are stable up to noise
        t = 1e-7
        want = dims_of(case["a"])
        V = Y + t * N
        V = V.astype(complex) if np.iscomplexobj(V) else V.astype(float)
        Ps = obs.call("decompose_rep_into_irreps", util.decompose_rep_into_irreps, V, epsilon=1e-5)
        sizes = [P.shape[1] for P in Ps]
        obs.equal({k: sizes.count(k) for k in set(sizes)}, want,
                  f"decompose_rep_into_irreps({specs.describe(case['a'])} + noise of 1e-7), epsilon 1e-5")
        for P in Ps:
            obs.check(orc.hom_dim(P, Y, 1e-3)[0] > 0, f"decompose_rep_into_irreps{what}: a part up to noise")
        # at the default tolerance, a larger one is noticed
        V = Y + 0.1 * N
        if np.linalg.eigvalsh(orc.hom_operator(V, V).conj().T @ orc.hom_operator(V, V))[1] > 1e-3:
            Ps = obs.call("decompose_rep_into_irreps", util.decompose_rep_into_irreps, V)
            obs.equal([P.shape[1] for P in Ps], [d], f"decompose_rep_into_irreps({specs.describe(case['a'])} + noise of 0.1)")
        obs.feature("eps", done, round(np.log10(s)))

    @staticmethod
    def run_real(case, obs, rng, fn, u):
        j = case["j"]
        t = {"SO3": [j], "SU2": [2 * j], "O3": [j, 1], "SU3": None}[case["g"]]
        sp = specs.tab("SU3", 2 * (j % 2), j % 2, 0) if t is None else specs.tab(case["g"], *t)
        sp = {"k": "red", "t": [[1, sp]], "q": case["q"]}
        r = specs.build(sp)
        A, X, H = specs.dense(sp)
        what = f"make_explicitly_real({specs.describe(sp)}), {case['k']} digits"
        q = obs.call("make_explicitly_real", lie.make_explicitly_real, r, round_fn=fn)
        obs.check(fn.calls > 0, f"{what}: the rounding function is used")
        obs.zero(np.imag(q.X), f"{what}: real", 1e-9)
        obs.zero(np.imag(q.H), f"{what}: real", 1e-9)
        obs.equal(orc.hom_dim(np.concatenate([X, H]), np.concatenate([q.X, q.H]), 1e-5)[0], 1, f"{what}: equivalent")
