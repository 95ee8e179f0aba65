"""C34-C37: permutations, finite groups, root data, the triplet checker."""
import collections
import contextlib
import io
import itertools
import math
from fractions import Fraction
import random

import numpy as np

import lie_nn as lie
from lie_nn import irreps as I
from lie_nn import util
from lie_nn._src.discrete_groups import perm
from lie_nn._src.lie_algebra_utils import structure_algebra

from . import orc, specs
from .core import Skip
from .p_reps import GS, compare
from .props import prop
from .specs import GROUPS


def comp(p, q):
    return tuple(p[i] for i in q)


def closure(n, gens):
    return {p for _, p in orc.perm_group(n, [(1, tuple(g)) for g in gens])}


@prop("C34", "All permutations of up to 5 (thorough 6) elements, seeded pairs of up to 40 elements and generating "
      "sets of up to 7 elements, sequences that are not permutations.")
class Permutations:
    @staticmethod
    def gen(rng, tier):
        out = [{"m": "all", "n": n} for n in range(1, 7 if tier == "thorough" else 6)]
        out += [{"m": "rand", "n": n, "s": int(rng.integers(10**6))} for n in (1, 2, 3, 4, 5, 13, 25)]
        k = 500 if tier == "thorough" else 120
        for _ in range(k):
            n = int(rng.integers(1, 8))
            out.append({"m": "pair", "n": n, "s": int(rng.integers(10**8))})
            n = int(rng.integers(8, 41))
            out.append({"m": "pair", "n": n, "s": int(rng.integers(10**8))})
            n = int(rng.integers(1, 6))
            out.append({"m": "group", "n": n, "k": int(rng.integers(1, 4)),
                        "s": int(rng.integers(10**8))})
        return out

    @staticmethod
    def run(case, obs):
        n, m = case["n"], case["m"]
        e = tuple(range(n))
        if m == "rand":
            state = random.getstate()
            random.seed(case["s"])
            try:
                N = 6000
                seen = [obs.call("rand", perm.rand, n) for _ in range(N)]
            finally:
                random.setstate(state)
            obs.check(all(sorted(p) == list(e) for p in seen), "rand gives permutations")
            # every position takes every value, every permutation appears (uniformly: 8 standard deviations)
            def uniform(counts, k, what):
                p = 1 / k
                obs.check(len(counts) == k and all(abs(c - N * p) < 8 * (N * p * (1 - p)) ** 0.5 + 1e-9
                                                   for c in counts.values()), what)

            for i in range(n):
                uniform(collections.Counter(p[i] for p in seen), n, f"rand({n}): position {i}")
            if n <= 5:
                uniform(collections.Counter(seen), math.factorial(n), f"rand({n}): all permutations")
            obs.feature("rand", n)
            return
        if m == "all":
            seen = [obs.call("from_int", perm.from_int, i, n) for i in range(math.factorial(n))]
            want = set(itertools.permutations(range(n)))
            obs.equal(set(seen), want, f"from_int enumerates S({n})")
            for i, p in enumerate(seen):
                obs.equal(obs.call("to_int", perm.to_int, p), i, f"to_int(from_int({i}, {n}))")
                obs.equal(perm.sign(p), orc.perm_sign(p), f"sign{p}")
                obs.equal(util.permutation_sign(p), orc.perm_sign(p), f"permutation_sign{p}")
            obs.equal(set(obs.call("group", perm.group, n)), want, f"group({n})")
            obs.equal(tuple(perm.identity(n)), e, "identity")
            if n <= 4:
                obs.check(perm.is_group(want), f"S({n}) is a group")
            obs.feature("all", n)
            return
        rng = np.random.default_rng(case["s"])
        if m == "pair":
            p, q, r = (tuple(int(x) for x in rng.permutation(n)) for _ in range(3))
            pq = obs.call("compose", perm.compose, p, q)
            obs.equal(tuple(pq), comp(p, q), f"compose({p}, {q})")
            obs.equal(tuple(perm.compose(pq, r)), tuple(perm.compose(p, perm.compose(q, r))),
                      "associativity")
            ip = tuple(obs.call("inverse", perm.inverse, p))
            obs.equal((comp(p, ip), comp(ip, p)), (e, e), f"inverse{p}")
            obs.equal(perm.sign(pq), orc.perm_sign(p) * orc.perm_sign(q), "sign of a product")
            obs.equal(util.permutation_sign(p), orc.perm_sign(p), f"permutation_sign{p}")
            obs.equal(tuple(perm.from_int(perm.to_int(p), n)), p, f"from_int(to_int({p}))")
            k = int.from_bytes(rng.bytes(30), "big") % math.factorial(n)
            obs.equal(perm.to_int(obs.call("from_int", perm.from_int, k, n)), k, f"to_int(from_int({k}, {n}))")
            obs.check(perm.is_perm(p), f"is_perm{p}")
            bad = list(p)
            if n > 1:
                bad[0] = bad[1]
                obs.check(not perm.is_perm(tuple(bad)), f"is_perm{tuple(bad)}")
            obs.check(not perm.is_perm(tuple(x + 1 for x in p)), "is_perm of a shifted range")
            cyc = obs.call("to_cycles", perm.to_cycles, p)
            moved = sorted(x for c in cyc for x in c)
            obs.equal(moved, [i for i in range(n) if p[i] != i], f"to_cycles{p}: moved points")
            for c in cyc:
                obs.check(all(p[a] == b for a, b in zip(c, c[1:] + c[:1])), f"to_cycles{p}")
                obs.equal(c[0], min(c), f"to_cycles{p}: starts at the minimum")
            random.seed(case["s"])
            x = obs.call("rand", perm.rand, n)
            obs.check(sorted(x) == list(range(n)), "rand is a permutation")
            obs.feature("pair", n, len(cyc))
        else:
            gens = {tuple(int(x) for x in rng.permutation(n)) for _ in range(case["k"])}
            want = closure(n, gens)
            got = obs.call("germinate", perm.germinate, set(gens))
            obs.equal(set(got), want, f"germinate({gens})")
            if len(want) <= 60:
                obs.check(perm.is_group(want), "a generated group is a group")
                if len(want) > 1:
                    less = set(want)
                    less.remove(specs.pick(rng, sorted(less)))
                    # removing one element leaves a group only when two elements become one
                    obs.equal(bool(perm.is_group(less)), less == {e}, "one element missing")
            obs.equal(bool(perm.is_group(set())), False, "the empty set")
            obs.feature("group", n, len(want))


# ---------------------------------------------------------------------------------------------


def mpow(h, k):
    return np.linalg.matrix_power(h, k)


@prop("C35", "The three representations of the symmetric group for n up to 8 (thorough 12) and some up to 70: relations, "
      "seeded words, equivalences, constructions.")
class Finite:
    @staticmethod
    def gen(rng, tier):
        top = 13 if tier == "thorough" else 9
        out = [{"m": "rel", "n": n, "t": t} for n in range(1, top) for t in ("nat", "std", "tri")
               if not (t == "std" and n == 1)]
        out += [{"m": "rel", "n": n, "t": t} for n in sorted(set(int(x) for x in rng.integers(
            top, 70, size=12 if top > 9 else 5))) for t in ("nat", "std", "tri")]
        out += [{"m": "eq", "n": n} for n in range(2, min(top, 8))]
        for _ in range(300 if tier == "thorough" else 60):
            out.append({"m": "word", "n": int(rng.integers(2, 7)),
                        "w": [int(x) for x in rng.integers(0, 2, size=int(rng.integers(1, 15)))]})
        out += [{"m": "all", "n": n} for n in range(2, 6)]
        return out

    @staticmethod
    def run(case, obs):
        n, m = case["n"], case["m"]
        build = lambda t: specs.build({"k": "sn", "t": t, "n": n})  # noqa: E731
        nh = 0 if n == 1 else 1 if n == 2 else 2
        if m == "rel":
            t = case["t"]
            r = build(t)
            d = specs.dim({"k": "sn", "t": t, "n": n})
            what = f"S{n} {t}"
            H = obs.call("discrete_generators", r.discrete_generators)
            obs.equal((H.shape, r.X.shape, r.A.shape, r.dim, r.lie_dim),
                      ((nh, d, d), (0, d, d), (0, 0, 0), d, 0), f"{what}: shapes")
            I_ = np.eye(d)
            if nh >= 1:
                s = H[0]
                obs.close(s @ s, I_, f"{what}: transposition squared", 1e-12)
            if nh == 2:
                c = H[1]
                obs.close(mpow(c, n), I_, f"{what}: cycle^n", 1e-12)
                obs.close(mpow(c @ s, n - 1), I_, f"{what}: (cycle transposition)^(n-1)", 1e-12)
                ic = mpow(c, n - 1)
                for k in range(2, n // 2 + 1):
                    x = s @ mpow(c, k) @ s @ mpow(ic, k)
                    obs.close(x @ x, I_, f"{what}: distant transpositions commute", 1e-12)
            if t == "nat" and nh:
                p = np.zeros((n, n))
                p[[1, 0] + list(range(2, n)), range(n)] = 1
                obs.close(H[0], p, f"{what}: transposition of 0 and 1", 0)
                if nh == 2:
                    p = np.zeros((n, n))
                    p[[(i + 1) % n for i in range(n)], range(n)] = 1
                    obs.close(H[1], p, f"{what}: cycle i -> i+1", 0)
            if t == "std":
                B = np.zeros((n, n - 1))
                B[0] = -1
                B[1:] = np.eye(n - 1)
                N = build("nat").H
                for x, y in zip(N, H):
                    obs.close(x @ B, B @ y, f"{what}: acts on e_i - e_0", 1e-12)
            if t == "tri":
                obs.close(H, np.ones((nh, 1, 1)), f"{what}: trivial", 0)
            obs.equal(bool(obs.call("is_trivial", r.is_trivial)),
                      t == "tri" or (t == "nat" and n == 1), f"{what}: is_trivial")
            one = obs.call("create_trivial", r.create_trivial)
            obs.check(one.is_trivial() and one.H.shape == (nh, 1, 1), f"{what}: create_trivial")
            if 1 < n < 13:
                obs.equal(bool(lie.is_irreducible(r)), t != "nat", f"{what}: is_irreducible")
                obs.check(bool(lie.is_real(r)) if t != "nat" else True, f"{what}: real")
            obs.feature("rel", n, t)
        elif m == "eq":
            nat, std, tri = build("nat"), build("std"), build("tri")
            ds = obs.call("direct_sum", lie.direct_sum, tri, std)
            S = obs.call("infer_change_of_basis", lie.infer_change_of_basis, nat, ds)
            obs.equal(len(S), 2, f"S{n}: natural = trivial + standard")
            M = S[0] * 0.7 + S[1] * 1.9
            obs.check(np.linalg.cond(M) < 1e6, f"S{n}: invertible intertwiner")
            for x, y in zip(nat.H, ds.H):
                obs.close(M @ x, y @ M, f"S{n}: intertwiner", 1e-7)
            tp = obs.call("tensor_product", lie.tensor_product, nat, std)
            for x, a, b in zip(tp.H, nat.H, std.H):
                obs.close(x, np.kron(a, b), f"S{n}: tensor product", 1e-12)
            k = len(obs.call("infer_change_of_basis", lie.infer_change_of_basis, tp, tri))
            obs.equal(k, 1, f"S{n}: invariants of natural x standard")
            C = obs.call("clebsch_gordan", lie.clebsch_gordan, std, std, tri)
            obs.equal(C.shape, (1, n - 1, n - 1, 1), f"S{n}: invariant form of the standard rep")
            for x in std.H:
                obs.close(np.einsum("zijk,ia,jb->zabk", C, x, x), C, f"S{n}: invariant form", 1e-7)
            obs.feature("eq", n)
        elif m == "word":
            # a word in the generators, through the permutation it stands for
            gens = [(1, 0) + tuple(range(2, n)), tuple((i + 1) % n for i in range(n))]
            p = tuple(range(n))
            nat, std = build("nat"), build("std")
            A, B = np.eye(n), np.eye(n - 1)
            for g in case["w"]:
                g = min(g, nh - 1)
                p = comp(p, gens[g])
                k = np.zeros(nh, dtype=int)
                k[g] = 1
                A = A @ obs.call("exp_map", nat.exp_map, np.zeros(0), k)
                B = B @ obs.call("exp_map", std.exp_map, np.zeros(0), k)
            P = np.zeros((n, n))
            P[list(p), range(n)] = 1
            obs.close(A, P, f"S{n} word {case['w']}", 1e-12)
            obs.close(np.trace(B), np.trace(P) - 1, f"S{n} word {case['w']}: characters", 1e-9)
            obs.feature("word", n, len(case["w"]))
        else:
            # faithful: n! distinct matrices
            for t in ("nat", "std"):
                H = build(t).H
                seen = {}
                todo = [np.eye(H.shape[1])]
                while todo:
                    x = todo.pop()
                    k = tuple(np.round(x.reshape(-1), 6) + 0.0)
                    if k in seen:
                        continue
                    seen[k] = x
                    obs.check(len(seen) <= 200, f"S{n} {t}: finite")
                    todo += [x @ h for h in H]
                obs.equal(len(seen), math.factorial(n), f"S{n} {t}: faithful")
                chars = [np.trace(x) for x in seen.values()]
                obs.close(np.mean(np.square(chars)), 2.0 if t == "nat" else 1.0,
                          f"S{n} {t}: norm of the character", 1e-9)
            obs.feature("all", n)


# ---------------------------------------------------------------------------------------------

ROOTS = {"A": lambda r: r * (r + 1) // 2, "B": lambda r: r * r, "C": lambda r: r * r,
         "D": lambda r: r * (r - 1)}
COXETER = {"A": lambda r: r + 1, "B": lambda r: 2 * r, "C": lambda r: 2 * r,
           "D": lambda r: 2 * r - 2}


def sp_dim(s):
    r = len(s)
    l = [sum(s[i:]) + r - i for i in range(r)]
    k = [r - i for i in range(r)]
    x = Fraction(1)
    for i in range(r):
        x *= Fraction(l[i], k[i])
        for j in range(i + 1, r):
            x *= Fraction(l[i] ** 2 - l[j] ** 2, k[i] ** 2 - k[j] ** 2)
    return int(x)


def _cartan(n, bonds):
    C = 2 * np.eye(n, dtype=int)
    for i, j, a, b in bonds:
        C[i, j], C[j, i] = a, b
    return C.tolist()


def _simply_laced(n):
    return _cartan(n, [(i, i + 1, -1, -1) for i in range(n - 2)] + [(2, n - 1, -1, -1)])


# Cartan matrices and dimensions of the fundamental irreps
EXCEPTIONAL = {
    "G2": (_cartan(2, [(0, 1, -1, -3)]), [7, 14]),
    "F4": (_cartan(4, [(0, 1, -1, -1), (1, 2, -1, -2), (2, 3, -1, -1)]), [26, 52, 273, 1274]),
    "E6": (_simply_laced(6), [27, 27, 78, 351, 351, 2925]),
    "E7": (_simply_laced(7), [56, 133, 912, 1539, 8645, 27664, 365750]),
}


@prop("C36", "The four classical series up to rank 12 (thorough 20), and the Cartan matrix and dimension "
      "formula on the roots of G2, F4, E6, E7.")
class RootData:
    @staticmethod
    def gen(rng, tier):
        top = 20 if tier == "thorough" else 12
        return [{"g": g, "r": r} for g in "ABCD" for r in range({"A": 1, "B": 2, "C": 2, "D": 2}[g],
                                                                top + 1)] + \
            [{"g": x, "r": int(x[1]), "s": int(rng.integers(10**6))} for x in EXCEPTIONAL for _ in range(3)]

    @staticmethod
    def exceptional(case, obs):
        """the helpers on the roots of the exceptional groups, in seeded coordinates"""
        from lie_nn._src.lie_algebra_utils import cartan_matrix, weyl_dim

        C, dims = EXCEPTIONAL[case["g"]]
        C = np.array(C)
        r = len(C)
        # the lengths of the roots from the Cartan matrix C_ij = 2 (a_i, a_j) / (a_i, a_i)
        n2 = {0: 2.0}
        while len(n2) < r:
            for i in list(n2):
                for j in range(r):
                    if j not in n2 and C[i, j]:
                        n2[j] = n2[i] * C[i, j] / C[j, i]
        G = np.array([[C[i, j] * n2[i] / 2 for j in range(r)] for i in range(r)])
        rng = np.random.default_rng(case["s"])
        S = np.linalg.cholesky(G) @ specs._haar(rng, r + 2, False)[:r] * rng.uniform(0.5, 2)
        obs.close(obs.call("cartan_matrix", cartan_matrix, S), C, f"{case['g']}: Cartan matrix", 1e-9)
        roots = {tuple(x) for x in np.eye(r, dtype=int)}
        while True:
            new = set()
            for x in roots:
                for i in range(r):  # reflections
                    y = np.array(x)
                    y[i] -= int(C[i] @ y)
                    if min(y) >= 0:
                        new.add(tuple(int(v) for v in y))
            if new <= roots:
                break
            roots |= new
        P = np.array(sorted(roots)) @ S
        rho = P.sum(axis=0) / 2
        F = np.linalg.pinv(2 * S / (S**2).sum(axis=1)[:, None]).T
        got = [obs.call("weyl_dim", weyl_dim, f, P, rho) for f in F]
        obs.close(np.sort(got), sorted(dims), f"{case['g']}: dimensions of the fundamental irreps", 1e-6, scale=0)
        obs.close(weyl_dim(rho, P, rho), 2.0 ** len(P), f"{case['g']}: Steinberg irrep", 1e-7)
        obs.feature(case["g"])

    @staticmethod
    def run(case, obs):
        g, r = case["g"], case["r"]
        if "s" in case:
            return RootData.exceptional(case, obs)
        d = obs.call("structure_algebra", structure_algebra, g, r)
        what = f"{g}{r}"
        S, P = np.asarray(d["SimpleRoots"]), np.asarray(d["PositiveRoots"])
        F = np.asarray(d["FundamentalWeights"])
        obs.equal(len(S), r, f"{what}: number of simple roots")
        obs.equal(orc.rank(S), r, f"{what}: simple roots are independent")
        obs.equal(len(P), ROOTS[g](r), f"{what}: number of positive roots")
        obs.equal(len({tuple(x) for x in P}), len(P), f"{what}: distinct positive roots")
        coef = np.linalg.lstsq(S.T, P.T, rcond=None)[0].T
        obs.close(coef @ S, P, f"{what}: positive roots in the span of the simple ones", 1e-9)
        obs.close(coef, np.round(coef), f"{what}: integer coefficients", 1e-9)
        obs.check(np.all(coef > -1e-9), f"{what}: non-negative coefficients")
        keys = {tuple(np.round(x, 6) + 0.0) for x in P}
        obs.check(all(tuple(np.round(x, 6) + 0.0) in keys for x in S),
                  f"{what}: simple roots are positive roots")
        # reflections permute the roots
        allr = keys | {tuple(-np.array(x) + 0.0) for x in keys}
        for s in S:
            for x in P:
                y = x - 2 * x.dot(s) / s.dot(s) * s
                obs.check(tuple(np.round(y, 6) + 0.0) in allr, f"{what}: Weyl reflections")
        C = np.asarray(d["CartanMatrix"])
        want = np.array([[2 * a.dot(b) / a.dot(a) for b in S] for a in S])
        obs.close(C, want, f"{what}: Cartan matrix", 1e-9)
        det = {"A": r + 1, "B": 2, "C": 2, "D": 4}[g]
        obs.close(np.linalg.det(C), det, f"{what}: determinant of the Cartan matrix", 1e-7)
        # fundamental weights are dual to the simple coroots
        obs.equal(F.shape, (r, S.shape[1]), f"{what}: number of fundamental weights")
        pair = np.array([[2 * f.dot(s) / s.dot(s) for s in S] for f in F])
        obs.close(pair, np.eye(r), f"{what}: fundamental weights", 1e-9)
        rho = np.asarray(d["WeylVector"])
        obs.close(rho, P.sum(axis=0) / 2, f"{what}: Weyl vector", 1e-9)
        obs.close(F.sum(axis=0), rho, f"{what}: Weyl vector = sum of the fundamental weights", 1e-9)
        obs.close(d["CoxeterNumber"], COXETER[g](r), f"{what}: Coxeter number", 1e-9)
        # highest root: dominant, a root, highest
        M = np.asarray(d["MaximalRoots"])
        obs.check(tuple(np.round(M, 6) + 0.0) in keys, f"{what}: maximal root is a root")
        obs.check(all(M.dot(s) >= -1e-9 for s in S), f"{what}: maximal root is dominant")
        if (g, r) != ("D", 2):  # not simple
            obs.check(all(tuple(np.round(M + s, 6) + 0.0) not in allr for s in S), f"{what}: maximal root is maximal")
            top = np.linalg.lstsq(S.T, M, rcond=None)[0]
            obs.check(np.all(coef <= top + 1e-6), f"{what}: maximal root is above the others")
        if g in "ABC":
            obs.equal(d["Dynkin"].split("\n")[0].count("0"), r, f"{what}: Dynkin diagram nodes")
        # Weyl dimension formula on the fundamental weights
        from lie_nn._src.lie_algebra_utils import weyl_dim

        vec = {"A": r + 1, "B": 2 * r + 1, "C": 2 * r, "D": 2 * r}[g]
        first = F[0]
        if not (g == "B" and r == 1) and not (g == "D" and r == 2) and not (g == "B" and r < 2):
            if not (g == "D" and r == 3):
                obs.close(weyl_dim(first, P, rho), vec, f"{what}: dimension of the first "
                          "fundamental irrep", 1e-7)
        dims = [weyl_dim(f, P, rho) for f in F]
        for k, x in enumerate(dims, 1):
            if g == "A":
                w = math.comb(r + 1, k)
            elif g == "B":
                w = math.comb(2 * r + 1, k) if k < r else 2**r
            elif g == "C":
                w = math.comb(2 * r, k) - (math.comb(2 * r, k - 2) if k >= 2 else 0)
            else:
                w = math.comb(2 * r, k) if k < r - 1 else 2 ** (r - 1)
            obs.close(x, w, f"{what}: dimension of the fundamental irrep {k}", 1e-7)
        if g == "C" and 2 <= r <= 6:
            # the irreps of Sp(2r), by Dynkin label, against exact arithmetic
            from lie_nn._src.irreps.spn import SPN

            rng = np.random.default_rng(r)
            for _ in range(40):
                s = tuple(int(x) for x in rng.integers(0, 5 if r < 5 else 3, size=r))
                obs.equal(obs.call("SPN.dim", lambda: SPN(s).dim), sp_dim(s), f"dim of SPN{s}")
                obs.equal(SPN(s).is_scalar(), not any(s), f"SPN{s} is a scalar")
        obs.close(weyl_dim(0 * rho, P, rho), 1, f"{what}: trivial irrep", 1e-9)
        obs.feature(g, r)


# ---------------------------------------------------------------------------------------------


class BrokenSO3(I.SO3):
    """a user-defined tabulated irrep whose coefficients are corrupted"""

    damage = None

    @classmethod
    def clebsch_gordan(cls, rep1, rep2, rep3):
        C = np.array(I.SO3.clebsch_gordan(I.SO3(rep1.l), I.SO3(rep2.l), I.SO3(rep3.l)))
        return cls.damage(C)


def damaged_class(damage, **methods):
    return type("BrokenSO3", (BrokenSO3,), {"damage": staticmethod(damage), **methods})


@prop("C37", "Triples of tabulated irreps of 10 groups and of generic representations; corrupted "
      "generators, algebras and coefficients.")
class Triplet:
    @staticmethod
    def gen(rng, tier):
        n = 60 if tier == "thorough" else 10
        out = []
        for g in GS:
            for i in range(n):
                a, b = (specs.rand_tab(rng, g, {"SU4": 4, "SO13": 4}.get(g, 5)) for _ in range(2))
                c = specs.pick(rng, sorted(orc.product(g, a["l"], b["l"])))
                out.append({"m": "ok", "g": g, "l": [a["l"], b["l"], list(c)], "gen": i % 3 == 0,
                            "s": int(rng.integers(10**6))})
                if g != "Z2":
                    out.append({"m": "bad", "g": g, "l": [a["l"], b["l"], list(c)],
                                "s": int(rng.integers(10**6))})
        for _ in range(8 * n):
            l1, l2 = (int(x) for x in rng.integers(1, 4, size=2))
            out.append({"m": "cg", "l": [l1, l2, int(rng.integers(abs(l1 - l2), l1 + l2 + 1))],
                        "s": int(rng.integers(10**6))})
        return out

    @staticmethod
    def run(case, obs):
        rng = np.random.default_rng(case["s"])
        if case["m"] == "cg":
            l1, l2, l3 = case["l"]

            def damage(C):
                C = np.array(C)
                nz = np.argwhere(np.abs(C) > 1e-6)
                i = tuple(nz[rng.integers(len(nz))])
                C[i] += 0.01 * (1 if rng.random() < 0.5 else -1)
                return C

            if l3 + l1 + l2 == 0:
                raise Skip("")
            for fn, ok in ((lambda C: C, True), (lambda C: -2 * C, True), (damage, False),
                           (lambda C: np.concatenate([C, 3 * C, -C]), True),
                           (lambda C: np.concatenate([C, C, damage(C)]), False)):
                cls = damaged_class(fn)
                args = (cls(l=l1), cls(l=l2), cls(l=l3))
                if ok:
                    obs.call("check_representation_triplet", lie.check_representation_triplet,
                             *args, rtol=1e-8, atol=1e-8)
                else:
                    # a zero-dimensional change is not possible: one entry was moved
                    with contextlib.redirect_stdout(io.StringIO()):
                        obs.raises("check_representation_triplet",
                                   lie.check_representation_triplet, *args, exc=AssertionError)
            # one entry wrong by u, with tolerances on both sides of u
            u = 10.0 ** rng.uniform(-7, -3)
            at = tuple(int(rng.integers(2 * l + 1)) for l in (l1, l2, l3))

            def shift(C):
                C = np.array(C)
                C[(0, *at)] += u
                return C

            whole = lambda C: C
            X = lambda x: x.continuous_generators() * (1 + u)
            A = lambda x=None: lie.irreps.SO3.algebra() + u * np.sign(lie.irreps.SO3.algebra())
            i = int(rng.integers(3))
            ls = [l1, l2, l3]
            so3 = [lie.irreps.SO3(l=l) for l in ls]
            kinds = {
                "one coefficient": [damaged_class(shift)] * 3,
                "one algebra": [damaged_class(whole, **({"algebra": A} if j == i else {})) for j in range(3)],
                "all algebras": [damaged_class(whole, algebra=A)] * 3,
            }
            if ls[i]:
                kinds["one set of generators"] = [
                    damaged_class(whole, **({"continuous_generators": lambda x: X(lie.irreps.SO3(l=x.l))} if j == i
                                            else {})) for j in range(3)]
            for kind, cls in kinds.items():
                args = [c(l=l) for c, l in zip(cls, ls)]
                what = f"check_representation_triplet {ls}, {kind} wrong by {u:.2g}"
                obs.call(what, lie.check_representation_triplet, *args,
                         rtol=specs.pick(rng, [1e-9, 1e-12]), atol=200 * u)
                if sum(ls) == 0 and kind == "one coefficient":
                    continue
                if kind == "all algebras" and max(ls) == 0:
                    continue
                for rtol, atol in ((1e-14, u / 300), (u / 300, u / 300), (u / 300, 1e-11)):
                    with contextlib.redirect_stdout(io.StringIO()):
                        obs.raises(f"{what}: rtol={rtol:.2g} atol={atol:.2g}",
                                   lie.check_representation_triplet, *args, exc=AssertionError,
                                   rtol=rtol, atol=atol)
            obs.feature("cg", l1, l2, l3)
            return
        reps = [GROUPS[case["g"]].make(l) for l in case["l"]]
        d = [r.dim for r in reps]
        if int(np.prod(d)) > 150 and case["g"] in ("SO13", "SU2Real"):
            raise Skip("large")
        what = f"check_representation_triplet {case['g']} {case['l']}"
        if case["m"] == "ok":
            if case["gen"] and int(np.prod(d)) <= 80:
                reps = [lie.change_basis(lie.GenericRep.from_rep(r), specs.basis(
                    specs.rand_q(rng, specs.UNITARY), r.dim)) for r in reps]
            obs.call("check_representation_triplet", lie.check_representation_triplet, *reps,
                     rtol=1e-6, atol=1e-6)
            # one of them known with a limited precision, and a tolerance that says so
            i = int(rng.integers(3))
            if int(np.prod(d)) <= 120 and len(reps[0].X):
                A, X, H = specs.raw(reps[i])
                if np.abs(X).max() > 1e-9:
                    near = list(reps)
                    near[i] = lie.GenericRep(A, X * (1 + 3e-9), H)
                    obs.call("check_representation_triplet", lie.check_representation_triplet, *near,
                             rtol=1e-7, atol=1e-7)
                    far = list(reps)
                    far[i] = lie.GenericRep(A, X * 1.0001, H)
                    obs.raises(f"{what} rtol=1e-8", lie.check_representation_triplet, *far, rtol=1e-8, atol=1e-8,
                               exc=AssertionError)
        else:
            i = int(rng.integers(3))
            A, X, H = specs.raw(reps[i])
            how = specs.pick(rng, ["X", "A", "perm"])
            if how == "X":
                if np.abs(X).max() < 1e-9:
                    how = "A"
                else:
                    k = specs.pick(rng, np.argwhere(np.abs(X) > 1e-9))
                    X[tuple(k)] *= 1.1
            if how == "perm":
                # two generators exchanged: the algebra is not the same
                if np.abs(X).max() < 1e-9:
                    how = "A"
                else:
                    X[[0, 1]] = X[[1, 0]]
            if how == "A":
                k = specs.pick(rng, np.argwhere(np.abs(A) > 1e-9))
                A[tuple(k)] *= 1.5
            com = np.einsum("iab,jbc->ijac", X, X)
            com = com - com.transpose(1, 0, 2, 3)
            bad = np.abs(com - np.einsum("ijk,kab->ijab", A, X)).max() > 1e-3 or how == "A"
            if not bad:
                raise Skip("the change keeps the representation")
            broken = list(reps)
            broken[i] = lie.GenericRep(A, X, H)
            obs.raises(what, lie.check_representation_triplet, *broken, exc=AssertionError)
        obs.feature(case["m"], case["g"], case.get("gen"))
