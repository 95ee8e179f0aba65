"""C01-C05: tabulated irreps; C09: selection rule; C33, C34: enumeration, order, text labels."""
import itertools
import math

import numpy as np

import lie_nn as lie

from . import orc, specs
from .props import prop
from .specs import GROUPS


def eps():
    e = np.zeros((3, 3, 3))
    for p in itertools.permutations(range(3)):
        e[p] = orc.perm_sign(p)
    return e


def documented_algebra(g):
    e = eps()
    if g in ("SU2", "SO3", "O3", "SU2Real"):
        return e
    if g in ("SL2C", "SO13"):
        A = np.zeros((6, 6, 6))
        A[:3, :3, :3] = e
        A[3:, 3:, :3] = e if g == "SL2C" else -e
        A[:3, 3:, 3:] = e
        A[3:, :3, 3:] = e
        return A
    if g == "Z2":
        return np.zeros((0, 0, 0))
    return None


def label_pool(g, tier):
    t = tier == "thorough"
    G = GROUPS[g]
    b, d = {
        "SU2": (80 if t else 45, 999), "SO3": (40 if t else 22, 999), "O3": (36 if t else 20, 999),
        "SU2Real": (30 if t else 16, 999), "SL2C": (12 if t else 8, 100 if t else 49),
        "SO13": (12 if t else 8, 60 if t else 36), "Z2": (1, 99),
        "SU2_": (24 if t else 12, 999), "SU3": (9 if t else 7, 100 if t else 45),
        "SU4": (6 if t else 4, 90 if t else 50), "SU5": (3, 60 if t else 24),
        "SU6": (2, 36 if t else 21), "SU7": (2, 28 if t else 7), "SU8": (1, 28 if t else 8),
    }[g]
    return [l for l in G.labels(b) if G.dim(l) <= d]


def label_cases(rng, tier, n_quick=40):
    out = []
    for g in specs.ALL_AND_SU5 + specs.HIGH:
        ls = label_pool(g, tier)
        ls.sort(key=lambda l: (GROUPS[g].dim(l), l))
        if tier == "quick" and len(ls) > n_quick:
            head = ls[: n_quick // 2]
            rest = ls[n_quick // 2 :]
            idx = rng.choice(len(rest), size=n_quick - len(head), replace=False)
            ls = head + [rest[i] for i in idx]
        for l in ls:
            out.append(
                {"g": g, "l": l, "s": int(rng.integers(10**6)), "cost": GROUPS[g].dim(l)}
            )
    # large labels of the groups with cheap generators
    t = tier == "thorough"
    for _ in range(12 if t else 3):
        j = int(rng.integers(60, 400 if t else 200))
        out += [{"g": "SU2", "l": [j], "s": 1, "cost": j}, {"g": "SO3", "l": [j // 2], "s": 1, "cost": j},
                {"g": "O3", "l": [j // 2, 1 - 2 * (j % 2)], "s": 1, "cost": j},
                {"g": "SU2Real", "l": [j // 2 if j % 4 < 2 else j // 4 + 0.5], "s": 1, "cost": j},
                {"g": "SU2_", "l": [j // 6, 0], "s": 1, "cost": j}]
        a, b = int(rng.integers(0, 3)), int(rng.integers(9, 30 if t else 20))
        out.append({"g": "SL2C", "l": [a, b] if j % 2 else [b, a], "s": 1, "cost": 60})
    return out


RULE_LABEL = (
    "Every label of each of the 10 tabulated groups and of SU(5) to SU(8) below a dimension bound (quick: the smallest "
    "ones and a seeded sample of the rest), one case per label."
)


@prop("C01", RULE_LABEL + " SU(2), SO(3), O(3) of dimensions 350 to 2140 (thorough 3080) with sparse products.")
class Algebra:
    @staticmethod
    def gen(rng, tier):
        out = label_cases(rng, tier)
        for lo in (700, 2060) + ((3000,) if tier == "thorough" else ()):  # huge and sparse
            j = int(rng.integers(lo, lo + 80))
            out += [{"g": "SU2", "l": [j], "huge": 1, "cost": 400}, {"g": "SO3", "l": [j // 2], "huge": 1, "cost": 999},
                    {"g": "O3", "l": [j // 2, 1], "huge": 1, "cost": 999},
                    {"g": "SU2Real", "l": [j // 4], "huge": 1, "cost": 400}]
        return out

    @staticmethod
    def huge(case, obs):
        import scipy.sparse as sp

        g = case["g"]
        rep = GROUPS[g].make(case["l"])
        X = obs.call("continuous_generators", rep.continuous_generators)
        obs.equal(X.shape, (3, rep.dim, rep.dim), "shape of the generators")
        Y = [sp.csr_matrix(x) for x in X]
        scale = float(np.max(np.abs(X))) ** 2
        for i in range(3):
            a, b, c = Y[i], Y[(i + 1) % 3], Y[(i + 2) % 3]
            obs.check(abs(a @ b - b @ a - c).max() < 1e-11 * scale, f"{g} {case['l']}: [X_i,X_j] = A_ijk X_k")
        j = (rep.dim - 1) / 2
        cas = sum(y @ y for y in Y) + sp.identity(rep.dim) * (j * (j + 1))
        obs.check(abs(cas).max() < 1e-11 * scale, f"{g} {case['l']}: irreducible (Casimir operator)")
        obs.feature(g, rep.dim)

    @staticmethod
    def run(case, obs):
        if case.get("huge"):
            return Algebra.huge(case, obs)
        g = case["g"]
        G = GROUPS[g]
        rep = obs.call(f"{g}()", G.make, case["l"])
        A = obs.call("algebra", rep.algebra)
        X = obs.call("continuous_generators", rep.continuous_generators)
        n = G.lie_dim
        obs.equal(A.shape, (n, n, n), "algebra shape")
        obs.equal(X.shape[0], n, "number of continuous generators")
        obs.equal(X.ndim, 3, "generators are a stack of matrices")
        obs.equal(X.shape[1], X.shape[2], "square generators")
        obs.equal(rep.lie_dim, n, "lie_dim")
        obs.check(not np.iscomplexobj(A) or np.abs(A.imag).max(initial=0) < 1e-12, "A is real")
        A = np.real(A)
        if n:
            com = np.einsum("iab,jbc->ijac", X, X)
            com = com - com.transpose(1, 0, 2, 3)
            scale = float(np.max(np.abs(X))) ** 2
            obs.close(com, np.einsum("ijk,kac->ijac", A, X), "[X_i,X_j] = A_ijk X_k", 1e-9,
                      scale=scale)
            obs.zero(A + A.transpose(1, 0, 2), "A antisymmetric", 1e-10)
            J = np.einsum("ijm,mkl->ijkl", A, A)
            J = J + J.transpose(1, 2, 0, 3) + J.transpose(2, 0, 1, 3)
            obs.zero(J, "Jacobi identity", 1e-9)
            obs.call("check_algebra_vs_generators", lie.util.check_algebra_vs_generators, A, X,
                     rtol=1e-8, atol=1e-8 * (1 + scale), assert_=True)
        doc = documented_algebra(g)
        if doc is not None:
            obs.close(A, doc, "documented structure constants", 1e-12)
        else:
            kil = np.einsum("ikl,jlk->ij", A, A)
            obs.check(np.max(np.linalg.eigvalsh(kil)) < -0.1, "compact real form (Killing form)")
        triv = obs.call("create_trivial", rep.create_trivial)
        obs.close(triv.algebra(), A, "same structure constants as the trivial irrep", 1e-10)
        obs.zero(triv.continuous_generators(), "trivial generators vanish", 1e-12)
        # the A, X, H shorthands are the same data
        obs.close(rep.A, A, "rep.A", 1e-12)
        obs.close(rep.X, X, "rep.X", 1e-12)
        obs.feature(g, rep.dim)


@prop("C02", RULE_LABEL)
class Discrete:
    @staticmethod
    def gen(rng, tier):
        return label_cases(rng, tier, 24)

    @staticmethod
    def run(case, obs):
        g = case["g"]
        G = GROUPS[g]
        rep = G.make(case["l"])
        d = G.dim(case["l"])
        X = obs.call("continuous_generators", rep.continuous_generators)
        H = obs.call("discrete_generators", rep.discrete_generators)
        obs.equal(H.shape, (G.n_h, d, d), "shape of the discrete generators")
        obs.close(rep.H, H, "rep.H", 1e-12)
        for h in H:
            obs.close(h @ h, np.eye(d), "parity squares to one", 1e-10)
            obs.zero(np.einsum("ij,ajk->aik", h, X) - np.einsum("aij,jk->aik", X, h),
                     "parity commutes with the rotations", 1e-9)
            p = case["l"][-1]
            obs.close(np.trace(h), p * d, "parity eigenvalue of the label", 1e-10)
        # unitarity / reality
        Xh = np.conj(np.swapaxes(X, 1, 2))
        s = float(np.abs(X).max(initial=0))
        if g == "SO13":
            obs.zero(X[:3] + Xh[:3], "rotations anti-Hermitian", 1e-8, scale=s)
            obs.zero(X[3:] - Xh[3:], "boosts Hermitian", 1e-8, scale=s)
            if case["l"][0] == case["l"][1]:
                obs.check(not np.iscomplexobj(X), "real irreps (l = k) have real generators")
        else:
            obs.zero(X + Xh, "generators anti-Hermitian", 1e-9, scale=s)
        if g in ("SO3", "O3", "SU2Real", "Z2"):
            obs.check(not np.iscomplexobj(X), "real generators")
        obs.check(H.dtype.kind == "f", "real discrete generators")
        if d <= 6:
            if g != "SO13":
                obs.check(obs.call("is_unitary", lie.is_unitary, rep) is not False or s > 50,
                          "is_unitary")
        obs.feature(g, d)


def element(rng, g):
    n = GROUPS[g].lie_dim
    return rng.normal(size=n) * (0.9 if n <= 3 else 0.5)


def character_oracle(g, label, c, obs):
    if g in ("SU2", "SO3", "O3", "SU2Real"):
        a = 0.5j * np.sqrt(np.sum(c * c))
        if g == "SU2":
            return orc.su2_char(label[0], a)
        if g == "SU2Real":
            j2 = round(2 * label[0])
            return orc.su2_char(j2, a) * (2 if j2 % 2 else 1)
        return orc.su2_char(2 * label[0], a)
    if g in ("SL2C", "SO13"):
        J, K = c[:3], c[3:]
        if g == "SL2C":
            u, v = J + K, J - K
        else:
            u, v = J + 1j * K, J - 1j * K
        au = 0.5j * np.sqrt(np.sum(u * u) + 0j)
        av = 0.5j * np.sqrt(np.sum(v * v) + 0j)
        return orc.su2_char(label[0], au) * orc.su2_char(label[1], av)
    if g == "Z2":
        return 1.0
    fund = [1] + [0] * (len(label) - 1)
    X = obs.call("continuous_generators", GROUPS[g].make(fund).continuous_generators)
    ev = np.exp(np.linalg.eigvals(np.einsum("a,aij->ij", c, X)))
    return orc.schur(label, ev)


@prop("C03", RULE_LABEL + " Characters at three seeded group elements per label.")
class Labels:
    @staticmethod
    def gen(rng, tier):
        return label_cases(rng, tier, 30)

    @staticmethod
    def run(case, obs):
        g, l = case["g"], case["l"]
        G = GROUPS[g]
        rep = G.make(l)
        d = G.dim(l)
        obs.equal(int(rep.dim), d, "dim of the label")
        X = obs.call("continuous_generators", rep.continuous_generators)
        H = obs.call("discrete_generators", rep.discrete_generators)
        obs.equal(X.shape, (G.lie_dim, d, d), "generators act on dim dimensions")
        rng = np.random.default_rng([5, case["s"]])
        for _ in range(3):
            c = element(rng, g)
            M = orc.expm(np.einsum("a,aij->ij", c, X)) if len(X) else np.eye(d)
            want = character_oracle(g, l, c, obs)
            obs.close(np.trace(M), want, f"character of {g}{tuple(l)}", 1e-7,
                      scale=d * float(np.abs(M).max()))
        Y = np.concatenate([X, H])
        if d <= 12 and not specs.is_half(g, l):
            k, gap = orc.hom_dim(Y, Y)
            obs.equal(k, 1, "commutant of an irrep")
            obs.check(obs.call("is_irreducible", lie.is_irreducible, rep), "is_irreducible")
        scal = l == [0] * len(l) or (g == "O3" and l[0] == 0) or l == [1] and g == "Z2"
        if hasattr(rep, "is_scalar"):
            obs.equal(bool(rep.is_scalar()), bool(scal), "is_scalar")
        triv = scal and not (g == "O3" and l[1] == -1)
        obs.equal(bool(obs.call("is_trivial", rep.is_trivial)), triv, "is_trivial")
        obs.feature(g, d)


# ---------------------------------------------------------------------------------------------


@prop("C04", "Pairs of labels per group: all pairs of small labels plus seeded large ones.")
class Selection:
    @staticmethod
    def gen(rng, tier):
        t = tier == "thorough"
        out = []
        for g in specs.ALL_AND_SU5 + specs.HIGH + specs.PRODUCTS:
            if "*" in g:
                ls = [l for l in GROUPS[g].labels(2) if GROUPS[g].dim(l) <= (80 if t else 30)]
                pairs = [(specs.pick(rng, ls), specs.pick(rng, ls)) for _ in range(400 if t else 40)]
                for i in range(0, len(pairs), 10):
                    out.append({"g": g, "pairs": pairs[i : i + 10], "cost": 1})
                continue
            b, d = {
                "SU2": (40, 99), "SO3": (25, 99), "O3": (14, 99), "SU2Real": (12, 99),
                "SL2C": (6, 99), "SO13": (7, 99), "Z2": (1, 9), "SU2_": (12, 99),
                "SU3": (9, 160), "SU4": (5, 140), "SU5": (3, 120),
                "SU6": (2, 80), "SU7": (2, 70), "SU8": (2, 70),
            }[g]
            ls = [l for l in GROUPS[g].labels(b) if GROUPS[g].dim(l) <= d]
            n = (6000 if t else 1500) // (4 if g in specs.HIGH else 1)
            pairs = [(a, c) for a in ls for c in ls]
            if len(pairs) > n:
                pairs = [pairs[i] for i in rng.choice(len(pairs), n, replace=False)]
            for i in range(0, len(pairs), 10):
                out.append({"g": g, "pairs": pairs[i : i + 10], "cost": 1})
            # large labels, with small and with large ones
            top = {"SU2": 1500, "SO3": 800, "O3": 400, "SU2Real": 300, "SL2C": 36, "SO13": 36, "SU2_": 400,
                   "SU3": 30, "SU4": 10, "SU5": 6, "SU6": 4}.get(g)
            if top is None:
                continue
            dmax = {"SU3": 1500, "SU4": 1500, "SU5": 900, "SU6": 600}.get(g, 10**9)

            def big(hi):
                for _ in range(1000):
                    l = specs.random_label(g, rng, hi)
                    if GROUPS[g].dim(l) <= dmax:
                        return l
                return ls[0]

            for i in range(300 if t else 60):
                a, c = big(top), big(top if i % 3 else 2)
                if g in ("SL2C", "SO13") and i % 3:
                    c = big(12)
                if dmax < 10**9:  # (number of tableaux)
                    c = specs.pick(rng, ls)
                out.append({"g": g, "pairs": [(a, c) if i % 2 else (c, a)], "cost": 2})
        return out

    @staticmethod
    def run(case, obs):
        g = case["g"]
        G = GROUPS[g]
        for l1, l2 in case["pairs"]:
            a, b = G.make(l1), G.make(l2)
            out = obs.call("__mul__", lambda: list(a * b))
            got = [tuple(G.label(r)) for r in out]
            want = orc.product(g, l1, l2)
            obs.equal(sorted(got), sorted(want), f"{g}: {l1} * {l2} (each irrep once)")
            if not any(specs.is_half(g, x) for x in (l1, l2)):
                obs.equal(sum(want[x] * int(r.dim) for x, r in zip(got, out)), a.dim * b.dim,
                          "dimensions add up with multiplicity")
            for x, r in zip(got, out):
                obs.check(r == G.make(list(x)), "the product contains irreps equal to their label")
                obs.check(hash(r) == hash(G.make(list(x))), "equal irreps hash equally")
            # the trivial irrep is neutral, the selection rule is symmetric
            back = sorted(tuple(G.label(r)) for r in b * a)
            obs.equal(back, sorted(want), "commutative")
            if "*" in g:  # the trivial irrep of a product is not implemented
                one = G.make([x for f in G.factors for x in
                              min(GROUPS[f].labels(1), key=lambda l: (GROUPS[f].dim(l), [-y for y in l] if f in
                                                                      ("O3", "Z2") else l))])
            else:
                one = a.create_trivial()
            obs.equal([tuple(G.label(r)) for r in one * a], [tuple(l1)], "trivial * a = a")
            obs.feature(g, len(want))


@prop("C05", "Per group and seed: the first N irreps of the enumeration, and seeded triples of labels "
      "for the ordering (small, up to a million, and next to each other).")
class Iteration:
    @staticmethod
    def gen(rng, tier):
        n = 12 if tier == "thorough" else 3
        return [
            {"g": g, "n": int(k), "s": int(rng.integers(10**6))}
            for g in specs.ALL
            for k in sorted(set([5, 200, 3000] + [int(rng.integers(10, 600)) for _ in range(n)]))
        ] + [
            {"g": g, "n": 0, "s": int(rng.integers(10**6))}
            for g in ["SU5"] + specs.HIGH + specs.PRODUCTS for _ in range(n)
        ]

    @staticmethod
    def run(case, obs):
        g, n = case["g"], case["n"]
        G = GROUPS[g]
        rng = np.random.default_rng([6, case["s"]])
        if n:
            Iteration.enumeration(g, G, n, obs)
        # strict total order
        pool = G.labels({"SU4": 4, "SU3": 6, "SU5": 3, "SU6": 3, "SU7": 2, "SU8": 2}.get(g, 2 if "*" in g else 12))
        big = [specs.random_label(g, rng, hi) for hi in (9, 20, 99, 1000, 10**6, 10**9) for _ in range(12)]
        big += [specs.next_to(g, rng, l) for l in big]
        for i in range(180):
            if i < 60:
                a, b, c = (G.make(specs.pick(rng, pool)) for _ in range(3))
            elif i < 120:
                a, b, c = (G.make(specs.pick(rng, big)) for _ in range(3))
            else:
                l = specs.pick(rng, big)
                a, b, c = G.make(l), G.make(specs.next_to(g, rng, l)), G.make(specs.next_to(g, rng, l))
            obs.check(not a < a, "irreflexive")
            same = G.label(a) == G.label(b)
            obs.equal(bool(a == b), same, "equality of irreps is equality of labels")
            obs.equal((a < b) + (b < a), 0 if same else 1, f"{a}, {b}: exactly one order")
            if a < b and b < c:
                obs.check(a < c, "transitive")
        irs = [G.make(specs.pick(rng, pool)) for _ in range(30)] + [G.make(l) for l in big]
        order = sorted(irs)
        for a, b in zip(order, order[1:]):
            obs.check(not b < a, "sorted() sorts")
        obs.feature(g, n)

    @staticmethod
    def enumeration(g, G, n, obs):
        it = obs.call("iterator", lambda: list(itertools.islice(G.cls.iterator(), n)))
        labels = [tuple(G.label(r)) for r in it]
        obs.equal(len(labels), 2 if g == "Z2" else n, "length of the enumeration")
        obs.equal(len(set(labels)), len(labels), "no irrep twice")
        obs.check(all(type(r) is G.cls for r in it), "irreps of the class itself")
        for a, b in zip(it, it[1:]):
            obs.check(a < b and not b < a, lambda: f"enumeration sorted: {a} {b}")
        triv = it[0]
        obs.equal(triv.dim, 1, "first irrep has dimension one")
        obs.zero(triv.continuous_generators(), "first irrep is trivial", 1e-14)
        obs.zero(triv.discrete_generators() - 1.0, "first irrep is trivial", 1e-14)
        c = obs.call("create_trivial", it[-1].create_trivial)
        obs.check(c == triv, "create_trivial is the first irrep")
        # completeness: no label strictly smaller than the last one is missing
        if n >= 50 and g != "Z2":
            last = it[-1]
            seen = set(labels)
            valid = [tuple(l) for l in G.labels(max(4, math.ceil(max(max(x) for x in labels))))]
            wrong = sorted(seen - set(valid))
            obs.equal(wrong[:3], [], f"{g}: {len(wrong)} labels of the enumeration denote no irrep")
            for l in valid:
                r = G.make(l)
                if r < last:
                    obs.check(tuple(G.label(r)) in seen, f"irrep {l} is missing")


def G0(g):
    return specs.small_labels(g, 10)[0]


@prop("C06", "Seeded texts `mul x label + ...` per group (with and without blanks, up to 12 terms, "
      "multiplicities up to 2500, labels of up to nine digits) and their parse; printed irreps "
      "evaluated again; a list of texts that are not labels.")
class Strings:
    @staticmethod
    def gen(rng, tier):
        n = 300 if tier == "thorough" else 50
        out = []
        for g in specs.ALL:
            if GROUPS[g].fmt is None:
                continue
            ls = [l for l in GROUPS[g].labels(12 if g not in ("SU3", "SU4") else 4)]
            if g in ("SL2C", "SO13"):
                ls = GROUPS[g].labels(12)
            small = specs.small_labels(g, 10)
            for i in range(n):
                k = int(rng.integers(1, 5)) if i % 7 else int(rng.integers(5, 13))
                terms = [
                    [int(rng.integers(0, 4)), specs.pick(rng, small), bool(rng.random() < 0.5)]
                    for _ in range(k)
                ]
                if i % 10 == 3:  # multiplicities of two digits
                    terms[0] = [int(rng.integers(10, 25)), G0(g), True]
                out.append({"g": g, "l": specs.pick(rng, ls), "t": terms,
                            "sp": int(rng.integers(0, 2**30)) if rng.random() < 0.5 else None,
                            "q": specs.rand_q(rng) if rng.random() < 0.4 else None})
            # labels and multiplicities of many digits, only read
            for _ in range(n // 2):
                out.append({"g": g, "big": [int(10 ** rng.uniform(0, 9)) for _ in range(4)],
                            "sp": int(rng.integers(0, 2**30))})
            # sums with very many terms
            for m in ([1100, 2500] if tier == "thorough" else [1100]):
                out.append({"g": g, "l": G0(g), "t": [[m, G0(g), True], [2, small[1], True]],
                            "sp": None, "q": None})
            out.append({"g": g, "bad": True})
        return out

    @staticmethod
    def blanks(sp, text):
        """The text with blanks around the labels, the multiplicities and the signs."""
        if sp is None:
            return text
        r = np.random.default_rng(sp)

        def b():
            return " " * int(r.integers(0, 3))

        return "+".join(b() + "x".join(b() + u + b() for u in t.split("x")) + b()
                        for t in text.split("+"))

    @staticmethod
    def big_label(g, v):
        if g == "Z2":
            return (1 if v[0] % 2 else -1,)
        if g == "O3":
            return (v[0], 1 if v[1] % 2 else -1)
        if g in ("SU2", "SO3"):
            return (v[0],)
        if g in ("SL2C", "SO13"):
            return (v[0], v[1] if g == "SL2C" else v[0])
        n = len(GROUPS[g].labels(1)[0])
        return tuple(sorted((x % 97 for x in (v + v)[: n - 1]), reverse=True)) + (0,)

    @staticmethod
    def printed(r, G, obs):
        """The printed form of an irrep is python for an equal irrep."""
        names = {c.__name__: c for c in type(r).__mro__}
        r2 = obs.call("eval(repr)", eval, repr(r), names)
        obs.check(r2 == r and type(r2) is type(r) and repr(r2) == repr(r), "printed and read again")

    @staticmethod
    def refused(G, obs):
        l = G.fmt(G.labels(2)[0])
        bad = ["", " ", "?", "abc", "1.5", "q" + l, l + "q", l + "?", l + l + "!", "()", "(", "(1", "1)",
               "(1,)", "(,1)", "[1,1]", "1e5", "--1", "e1", "o2", "ee", "oe", "1ee", "x", "E", "O"]
        if l.startswith("("):
            bad += [l + "z", l + ")", l + l, l + ",1", l[:-1], l[1:], "((1,0))", "(1.0,0)", "(a,b)", l + " z", "1 " + l]
        for t in bad:
            if t.strip() == l or (G.name in ("Z2",) and t in ("e", "o")):
                continue
            for what, fn in (("from_string", lambda: G.cls.from_string(t)),
                             ("MulIrrep", lambda: lie.MulIrrep.from_string(t, G.cls)),
                             ("MulIrrep 2x", lambda: lie.MulIrrep.from_string("2x" + t, G.cls)),
                             ("sum", lambda: lie.ReducedRep.from_string(l + " + " + t, G.cls))):
                try:
                    r = fn()
                except Exception:
                    obs.check(True, "refused")
                    continue
                obs.check(False, f"{what}: {t!r} is not a label and was read as {r!r}")
        for t in ("1.5x" + l, "ax" + l, "x" + l, "1x", "2x2x" + l, "1xx" + l, l + "x2x" + l, "-1x" + l, "-3x" + l):
            try:
                r = lie.ReducedRep.from_string(t, G.cls)
            except Exception:
                obs.check(True, "refused")
                continue
            obs.check(False, f"{t!r} is not a multiple of a label and was read as {r!r}")
        for t in ("+", l + "+", "+" + l, l + "++" + l, l + " " + l, l + "  " + l + " + " + l):
            try:
                r = lie.ReducedRep.from_string(t, G.cls)
            except Exception:
                obs.check(True, "refused")
                continue
            obs.check(False, f"{t!r} is not a sum of labels and was read as {r!r}")

    @staticmethod
    def run(case, obs):
        g = case["g"]
        G = GROUPS[g]
        if case.get("bad"):
            Strings.refused(G, obs)
            obs.feature(g, "refused")
            return
        if "big" in case:
            l, m = Strings.big_label(g, case["big"][:3]), case["big"][3]
            r = obs.call("from_string", G.cls.from_string, Strings.blanks(case["sp"], G.fmt(l)))
            obs.equal(list(G.label(r)), list(l), "label read from text")
            mi = obs.call("MulIrrep.from_string", lie.MulIrrep.from_string,
                          Strings.blanks(case["sp"], f"{m}x{G.fmt(l)}"), G.cls)
            obs.equal((mi.mul, list(G.label(mi.rep))), (m, list(l)), "multiplicity and label")
            obs.equal(mi.dim, m * G.dim(l), "dimension of the multiple")
            Strings.printed(r, G, obs)
            obs.feature(g, "digits", len(str(max(case["big"]))))
            return
        sp = case["sp"]
        r = obs.call("from_string", G.cls.from_string, Strings.blanks(sp, G.fmt(case["l"])))
        obs.equal(G.label(r), case["l"], "label read from text")
        obs.check(r == G.make(case["l"]), "equal to the irrep made from numbers")
        Strings.printed(r, G, obs)
        parts, terms = [], []
        for m, l, explicit in case["t"]:
            if explicit:
                parts.append(f"{m}x{G.fmt(l)}")
                terms.append((m, l))
            else:
                parts.append(G.fmt(l))
                terms.append((1, l))
            mi = obs.call("MulIrrep.from_string", lie.MulIrrep.from_string,
                          Strings.blanks(sp, parts[-1]), G.cls)
            obs.equal((mi.mul, G.label(mi.rep)), terms[-1], "multiplicity and label")
            obs.equal(repr(mi), f"{terms[-1][0]}x{mi.rep!r}", "printed multiple")
            obs.equal(mi.dim, terms[-1][0] * G.dim(l), "dimension")
        d = sum(m * G.dim(l) for m, l in terms)
        if sum(m for m, _ in terms) == 0:
            return
        Q = specs.basis(case["q"], d)
        red = obs.call("ReducedRep.from_string", lie.ReducedRep.from_string,
                       Strings.blanks(sp, "+".join(parts)), G.cls, Q)
        obs.equal([(mi.mul, G.label(mi.rep)) for mi in red.irreps], terms, "terms in order")
        obs.equal(red.dim, d, "dimension of the sum")
        spec = {"k": "red", "t": [[m, specs.tab(g, *l)] for m, l in terms if m], "q": case["q"]}
        A, X, H = specs.dense(spec)
        obs.close(obs.call("X", red.continuous_generators), X, "generators of the sum")
        obs.close(obs.call("H", red.discrete_generators), H, "discrete generators of the sum")
        obs.close(red.algebra(), A, "algebra of the sum")
        # same thing from (mul, irrep) pairs, MulIrrep and irreps
        items = []
        for i, (m, l) in enumerate(terms):
            ir = G.make(l)
            items.append((m, ir) if i % 2 else lie.MulIrrep(m, ir))
            if m == 1 and i % 3 == 0:
                items[-1] = ir
        red2 = obs.call("ReducedRep.from_irreps", lie.ReducedRep.from_irreps, items, Q)
        obs.close(red2.continuous_generators(), X, "from_irreps builds the same sum")
        text = " + ".join(f"{m}x{G.make(l)!r}" for m, l in terms)
        obs.check(text in repr(red) and text in repr(red2), "printed sum names the terms in order")
        obs.feature(g, len(terms), d)
