"""C42: groups implemented by a user; C43: isomorphic groups and named representations."""
import functools
import itertools

import numpy as np

import lie_nn as lie

from . import orc, specs
from .core import Skip
from .p_reps import compare
from .p_rtp import formula_group, judge, projector
from .props import prop
from .specs import GROUPS

# ---------------------------------------------------------------------------------------------
# A user's group: the irreps of one of the groups in a basis of the user's choice (one per label) and, for
# the Lie algebra, in another basis. Only the abstract interface of TabulatedIrrep is implemented.
# ---------------------------------------------------------------------------------------------


@functools.lru_cache(maxsize=None)
def user_class(g, kind, seed, alg):
    G = GROUPS[g]
    rng = np.random.default_rng([41, seed])
    n = G.lie_dim
    R = specs.basis([alg, seed], n) if alg and n else np.eye(n)
    iR = np.linalg.inv(R)

    def P(label):
        q = specs.basis([kind, seed + 17 * sum((i + 1) * int(2 * x) for i, x in enumerate(label))],
                        G.dim(label))
        return q

    class User(lie.TabulatedIrrep):
        def __init__(self, *label):
            object.__setattr__(self, "label", tuple(label))

        def _base(self):
            return G.make(list(self.label))

        @classmethod
        def from_string(cls, s):
            return cls(*G.label(G.cls.from_string(s.strip())))

        def __mul__(self, other):
            for r in self._base() * other._base():
                yield type(self)(*G.label(r))

        @property
        def dim(self):
            return G.dim(self.label)

        def __lt__(self, other):
            return self._base() < other._base()

        def __eq__(self, other):
            return type(self) is type(other) and self.label == other.label

        def __hash__(self):
            return hash(self.label)

        def __repr__(self):
            return "U" + repr(self.label)

        @classmethod
        def iterator(cls):
            for r in G.cls.iterator():
                yield cls(*G.label(r))

        def algebra(self=None):
            A = np.array(G.make(G.labels(1)[-1]).algebra())
            return np.einsum("ia,jb,abc,ck->ijk", R, R, A, iR, optimize=True) if n else A

        def continuous_generators(self):
            X = np.array(self._base().continuous_generators())
            return specs.conj_by(P(self.label), np.einsum("ia,auv->iuv", R, X))

        def discrete_generators(self):
            return specs.conj_by(P(self.label), np.array(self._base().discrete_generators()))

        @classmethod
        def clebsch_gordan(cls, a, b, c):
            ba, bb, bc = (x._base() for x in (a, b, c))
            C = np.array(G.cls.clebsch_gordan(ba, bb, bc))
            return np.einsum("zabc,ai,bj,kc->zijk", C, np.linalg.inv(P(a.label)),
                             np.linalg.inv(P(b.label)), P(c.label), optimize=True)

    return User


def xh(rep):
    return (np.array(rep.algebra()), np.array(rep.continuous_generators()),
            np.array(rep.discrete_generators()))


@prop("C42", "Ten groups re-implemented by a user (another basis for every irrep and for the algebra, only the "
      "abstract interface), through products, powers, sums, texts, coefficients, products of groups, "
      "reduced products with permutation symmetries and the consistency checker.", min_checks=2)
class UserGroups:
    @staticmethod
    def gen(rng, tier):
        n = 14 if tier == "thorough" else 4
        out = []
        for g in specs.ALL:
            md = {"SU4": 4, "SO13": 4, "Z2": 1}.get(g, 6)
            ls = [l for l in specs.small_labels(g, md, 4) if not specs.is_half(g, l)]
            for m in ("tp", "pow", "red", "cg", "gp", "rtp", "sym", "triplet", "text", "icb"):
                for _ in range(n):
                    # rounding to square roots of rationals is part of rtp: there only signed permutations
                    kind = "signperm" if m in ("rtp", "sym") else specs.pick(rng, specs.QKINDS)
                    alg = specs.pick(rng, [None, "orth", "real", "signperm", "diag"])
                    if g == "SO13":
                        alg = None
                    c = {"g": g, "m": m, "c": [kind, int(rng.integers(10**5)), alg],
                         "l": [specs.pick(rng, ls) for _ in range(3)],
                         "mul": [int(x) for x in rng.integers(1, 3, size=3)],
                         "s": int(rng.integers(10**6))}
                    out.append(c)
        return out

    @staticmethod
    def run(case, obs):
        g, m = case["g"], case["m"]
        kind, seed, alg = case["c"]
        U = user_class(g, kind, seed, alg)
        rng = np.random.default_rng(case["s"])
        a, b, c = (U(*l) for l in case["l"])
        want = lambda x, y: specs.kron_dense(xh(x), xh(y))  # noqa: E731
        what = f"user-defined {g} {case['l']} {m}"
        prod = sorted(orc.product(g, *case["l"][:2]))
        if m == "tp":
            out = obs.call("tensor_product", lie.tensor_product, a, b)
            compare(obs, out, want(a, b), what, 1e-7)
            obs.check(isinstance(out, lie.ReducedRep) and all(isinstance(i.rep, U) for i in out.irreps),
                      f"{what}: made of the user's irreps")
        elif m == "pow":
            p = int(rng.integers(0, 4)) if a.dim <= 3 else int(rng.integers(0, 3))
            out = obs.call("tensor_power", lie.tensor_power, a, p)
            D = (xh(a)[0], np.zeros((len(xh(a)[0]), 1, 1)), np.ones((len(xh(a)[2]), 1, 1)))
            for _ in range(p):
                D = specs.kron_dense(D, xh(a))
            compare(obs, out, D, f"{what} {p}", 1e-7)
        elif m == "red":
            terms = [lie.MulIrrep(k, r) for k, r in zip(case["mul"][:2], (a, b))]
            red = obs.call("ReducedRep.from_irreps", lie.ReducedRep.from_irreps, terms)
            D = xh(a)[0], *[specs.bdiag_list([np.kron(np.eye(k), y) for k, r in
                                             zip(case["mul"], (a, b)) for y in [xh(r)[i][j]]]
                                             for j in range(len(xh(a)[i]))) for i in (1, 2)]
            d = sum(k * r.dim for k, r in zip(case["mul"], (a, b)))
            D = D[0], D[1].reshape(-1, d, d), D[2].reshape(-1, d, d)
            compare(obs, red, D, what, 1e-8)
            t = lie.MulIrrep(1, U(*sorted(specs.small_labels(g, 3, 2), key=GROUPS[g].dim)[0]))
            if d <= 9:
                out = obs.call("tensor_product", lie.tensor_product, red, t)
                compare(obs, out, specs.kron_dense(D, xh(t)), f"{what}: product", 1e-7)
        elif m == "cg":
            l3 = prod[int(rng.integers(len(prod)))]
            c = U(*l3)
            C = obs.call("clebsch_gordan", lie.clebsch_gordan, a, b, c)
            obs.equal(C.shape, (orc.product(g, *case["l"][:2])[l3], a.dim, b.dim, c.dim), what)
            Y = [np.concatenate(xh(r)[1:]) for r in (a, b, c)]
            nx = len(xh(a)[1])
            for i, (x, y, z) in enumerate(zip(*Y)):
                if i < nx:
                    rhs = np.einsum("zijk,ia->zajk", C, x) + np.einsum("zijk,jb->zibk", C, y)
                else:
                    rhs = np.einsum("zijk,ia,jb->zabk", C, x, y)
                obs.close(np.einsum("zijk,lk->zijl", C, z), rhs, f"{what}: equivariance", 1e-7,
                          scale=5.0 + float(np.abs(rhs).max()))
        elif m == "gp":
            h = specs.pick(rng, ["SO3", "Z2", "SU2", "O3"])
            o = GROUPS[h].make(specs.pick(rng, specs.small_labels(h, 3, 2)))
            x, y = (a, o) if rng.random() < 0.5 else (o, a)
            out = obs.call("group_product", lie.group_product, x, y)
            compare(obs, out, specs.gp_dense(xh(x), xh(y)), what, 1e-8)
            obs.check(isinstance(out, lie.TabulatedIrrep), f"{what}: a tabulated irrep")
            sq = [repr(r) for r in out * out]
            obs.equal(len(set(sq)), len(orc.product(g, case["l"][0], case["l"][0]))
                      * len(list(o * o)), f"{what}: selection rule")
        elif m in ("rtp", "sym"):
            ls = sorted(specs.small_labels(g, 3 if g != "SU4" else 4, 3))
            ls = [l for l in ls if not specs.is_half(g, l)]
            r = U(*specs.pick(rng, ls))
            red = lie.ReducedRep.from_irreps([(1, r), (1, r.create_trivial())]) if r.dim < 4 else \
                lie.ReducedRep.from_irreps([(1, r)])
            f = specs.pick(rng, ["ij=ji", "ij=-ji", "ijk=jik", "ijk=jki"]) if m == "rtp" else "ij=ji"
            if r.dim == 4:
                f = f[:2] + "=" + ("-" if "-" in f else "") + "ji"
            f0, grp = formula_group(f)
            dims = (red.dim,) * len(f0)
            P = projector(dims, grp)
            if orc.rank(P) == 0:
                raise Skip("empty")
            if m == "rtp":
                out = obs.call("reduced_tensor_product_basis", lie.reduced_tensor_product_basis, f,
                               **{x: red for x in f0})
            else:
                out = obs.call("reduced_symmetric_tensor_product_basis",
                               lie.reduced_symmetric_tensor_product_basis, red, 2)
            B = judge(obs, out, [xh(red)] * len(f0), True, what)
            obs.equal(B.shape[1], orc.rank(P), f"{what} {f}: complete")
            obs.close(P @ B, B, f"{what} {f}: symmetry", 1e-6)
        elif m == "triplet":
            l3 = prod[int(rng.integers(len(prod)))]
            if a.dim * b.dim > 40:
                raise Skip("large")
            obs.call("check_representation_triplet", lie.check_representation_triplet, a, b, U(*l3),
                     rtol=1e-6, atol=1e-6)
        elif m == "text":
            fmt = GROUPS[g].fmt
            if fmt is None or kind == "none":
                raise Skip("no text")
            text = specs.pick(rng, [" + ", "+"]).join(
                f"{k}x{fmt(l)}" for k, l in zip(case["mul"], case["l"]))
            if g in ("SU2_", "SU3", "SU4"):
                text = text.replace(" ", "")
            red = obs.call("ReducedRep.from_string", lie.ReducedRep.from_string, text, U)
            obs.equal([(i.mul, i.rep) for i in red.irreps],
                      [(k, U(*l)) for k, l in zip(case["mul"], case["l"])], f"{what}: {text!r}")
        else:
            # the user's irreps are equivalent to the library's when the algebra is the same
            if alg:
                raise Skip("another basis of the algebra")
            base = GROUPS[g].make(case["l"][0])
            S = obs.call("infer_change_of_basis", lie.infer_change_of_basis, base, a)
            obs.equal(len(S), 1, f"{what}: equivalent")
            Y1, Y2 = (np.concatenate(xh(r)[1:]) for r in (base, a))
            for x, y in zip(Y1, Y2):
                obs.close(S[0] @ x, y @ S[0], what, 1e-6, scale=float(np.abs(x).max()) * 3)
        obs.feature(g, m, kind, alg)


# ---------------------------------------------------------------------------------------------


def equivalent(obs, r1, r2, what, n=1):
    """n independent intertwiners, found by the library; for n = 1 it is invertible"""
    S = obs.call("infer_change_of_basis", lie.infer_change_of_basis, r1, r2)
    obs.equal(len(S), n, f"{what}: number of intertwiners")
    Y1, Y2 = (np.concatenate(xh(r)[1:]) for r in (r1, r2))
    for s in S:
        for x, y in zip(Y1, Y2):
            obs.close(s @ x, y @ s, what, 1e-6, scale=1 + float(np.abs(x).max()) * 3)
    if n == 1:
        obs.check(s.shape[0] == s.shape[1] and np.linalg.cond(s) < 1e6, f"{what}: invertible")


def su_conj(s):
    return [s[0] - x for x in reversed(s)]


@prop("C43", "The isomorphisms su(2)=so(3)=SU2_, sl(2,C)=so(1,3), so(4)=su(2)+su(2), so(6)=su(4), conjugate and "
      "adjoint irreps of SU(n), the vector of O(3) and the four-vector, for all labels below a bound.")
class Isomorphic:
    @staticmethod
    def gen(rng, tier):
        t = tier == "thorough"
        out = []
        for l in range(13 if t else 8):
            out += [{"m": "su2-so3", "l": l}, {"m": "su2real-so3", "l": l}, {"m": "o3", "l": l}]
        for j in range(13 if t else 8):
            out += [{"m": "su2_-su2", "j": j}]
        for j in range(5 if t else 3):
            out += [{"m": "su2real-half", "j": j + 0.5}]
        b = 5 if t else 3
        for l, k in itertools.product(range(b + 1), repeat=2):
            out += [{"m": "factor", "l": l, "k": k}, {"m": "so4", "l": l, "k": k}]
            if (l + k) % 2 == 0 and (l + 1) * (k + 1) <= 20:
                out += [{"m": "sl2c-so13", "l": l, "k": k}]
        for g, b in (("SU3", 4 if t else 3), ("SU4", 2), ("SU2_", 6)):
            out += [{"m": "conj", "g": g, "l": l} for l in specs.small_labels(g, 16 if t else 10, b)]
        out += [{"m": m} for m in ("four-vector", "so6", "o3-vector")]
        for i in range(60 if t else 20):
            hi = [4, 9, 25][i % 3]
            out.append({"m": "rules", "l": [int(x) for x in rng.integers(0, hi, size=4)]})
        out += [{"m": "adj", "g": g, "l": l} for g, l in (("SU2", [2]), ("SO3", [1]), ("SU2_", [2, 0]),
                                                         ("SU3", [2, 1, 0]), ("SU2Real", [1]),
                                                         ("SU4", [2, 1, 1, 0]))]
        return out

    @staticmethod
    def run(case, obs):
        m = case["m"]
        mk = lambda g, *l: GROUPS[g].make(list(l))  # noqa: E731
        what = str(case)
        if m == "su2-so3":
            l = case["l"]
            equivalent(obs, mk("SU2", 2 * l), mk("SO3", l), what)
            for k in (l - 1, l + 1):
                if k >= 0:
                    equivalent(obs, mk("SU2", 2 * k), mk("SO3", l), what, 0)
        elif m == "su2real-so3":
            l = case["l"]
            equivalent(obs, mk("SU2Real", l), mk("SO3", l), what)
            obs.close(mk("SU2Real", l).X, mk("SO3", l).X, f"{what}: the same real basis", 1e-9)
            if l <= 4:
                t = (l, (l + 1) // 2, l // 2 + 1)
                obs.close(obs.call("clebsch_gordan", lie.clebsch_gordan, *[mk("SU2Real", x) for x in t]),
                          obs.call("clebsch_gordan", lie.clebsch_gordan, *[mk("SO3", x) for x in t]),
                          f"{what}: the same coefficients", 1e-9)
        elif m == "su2real-half":
            j = case["j"]
            equivalent(obs, mk("SU2Real", j), mk("SU2", round(2 * j)), what, 2)
            equivalent(obs, mk("SU2Real", j), mk("SU2", round(2 * j) - 1), what, 0)
        elif m == "o3":
            l = case["l"]
            for p in (1, -1):
                o = mk("O3", l, p)
                obs.close(o.X, mk("SO3", l).X, what, 1e-12)
                prod = lie.group_product(mk("SO3", l), mk("Z2", p))
                equivalent(obs, o, lie.GenericRep(o.A, prod.X, prod.H), what)
        elif m == "su2_-su2":
            j = case["j"]
            r = mk("SU2_", j, 0)
            A = np.array(r.algebra())
            s = np.sign(A[0, 1, 2])
            r = obs.call("change_algebra", lie.change_algebra, r, s * 0.5 * np.eye(3))
            obs.close(r.A, mk("SU2", 1).A, f"{what}: algebra", 1e-9)
            equivalent(obs, r, mk("SU2", j), what)
        elif m == "sl2c-so13":
            l, k = case["l"], case["k"]
            r = obs.call("change_algebra", lie.change_algebra, mk("SL2C", l, k),
                         np.diag([1, 1, 1, 1j, 1j, 1j]))
            o = mk("SO13", l, k)
            obs.close(r.A, o.A, f"{what}: algebra", 1e-9)
            r = lie.GenericRep(np.array(o.A), r.X, r.H)
            equivalent(obs, r, o, what)
            if l != k:
                equivalent(obs, r, mk("SO13", k, l), what, 0)
        elif m == "rules":
            # corresponding labels have corresponding products
            def mul(g, a, b):
                return sorted(tuple(GROUPS[g].label(r)) for r in
                              obs.call("__mul__", lambda: list(mk(g, *a) * mk(g, *b))))

            a, b, c, d = case["l"]
            su2 = [x for (x,) in mul("SU2", [a], [b])]
            obs.equal([x - y for x, y in mul("SU2_", [a, 0], [b, 0])], su2, f"{what}: SU2_ and SU2")
            even = [x // 2 for (x,) in mul("SU2", [2 * a], [2 * b])]
            obs.equal([x for (x,) in mul("SO3", [a], [b])], even, f"{what}: SO3 and SU2")
            obs.equal([int(x) for (x,) in mul("SU2Real", [a], [b])], even, f"{what}: SU2Real and SU2")
            obs.equal(mul("O3", [a, 1], [b, -1]), [(x, -1) for x in even], f"{what}: O3 and SO3")
            prod = sorted((x, y) for x in su2 for (y,) in mul("SU2", [c], [d]))
            obs.equal(mul("SL2C", [a, c], [b, d]), prod, f"{what}: SL2C and two SU2")
            c, d = c + (a + c) % 2, d + (b + d) % 2
            obs.equal(mul("SO13", [a, c], [b, d]), mul("SL2C", [a, c], [b, d]), f"{what}: SO13 and SL2C")
            for g in ("SU3", "SU4"):
                n = int(g[2])
                p = [sorted((x % 4 for x in w[: n - 1]), reverse=True) + [0]
                     for w in (case["l"], case["l"][::-1])]
                obs.equal(mul(g, su_conj(p[0]), su_conj(p[1])),
                          sorted(tuple(su_conj(list(x))) for x in mul(g, *p)), f"{what}: {g}, conjugates")
        elif m == "factor":
            l, k = case["l"], case["k"]
            tp = obs.call("tensor_product", lie.tensor_product, mk("SL2C", l, 0), mk("SL2C", 0, k))
            equivalent(obs, tp, mk("SL2C", l, k), what)
        elif m == "so4":
            # J = L + R, K = L - R
            l, k = case["l"], case["k"]
            gp = obs.call("group_product", lie.group_product, mk("SU2", l), mk("SU2", k))
            e = np.eye(3)
            r = obs.call("change_algebra", lie.change_algebra, gp, np.block([[e, e], [e, -e]]))
            o = mk("SL2C", l, k)
            obs.close(r.A, o.A, f"{what}: algebra", 1e-9)
            equivalent(obs, r, o, what)
        elif m == "conj":
            r = mk(case["g"], *case["l"])
            c = obs.call("conjugate", lie.conjugate, r)
            l2 = su_conj(case["l"])
            equivalent(obs, c, mk(case["g"], *l2), what)
            if l2 != case["l"]:
                equivalent(obs, c, r, what, 0)
        elif m == "adj":
            r = mk(case["g"], *case["l"])
            A = np.array(r.algebra())
            # ad(X_i) X_j = A_ijk X_k
            ad = lie.GenericRep(A, np.transpose(A, (0, 2, 1)), np.zeros((0, len(A), len(A))))
            obs.call("check_algebra_vs_generators", ad.check_algebra_vs_generators, 1e-8, 1e-8)
            equivalent(obs, ad, r, what)
        elif m == "four-vector":
            v = lie.irreps.SO13.four_vector()
            obs.call("check_algebra_vs_generators", v.check_algebra_vs_generators)
            equivalent(obs, v, mk("SO13", 1, 1), what)
            eta = np.diag([-1.0, 1, 1, 1])
            for x in v.X:
                obs.zero(x.T @ eta + eta @ x, f"{what}: preserves the metric", 1e-12)
        elif m == "so6":
            r = mk("SU4", 1, 1, 0, 0)
            obs.check(obs.call("is_real", lie.is_real, r), f"{what}: real")
            v = obs.call("make_explicitly_real", lie.make_explicitly_real, r)
            X = np.array(v.X)
            obs.zero(X.imag, f"{what}: real", 1e-8)
            obs.zero(X + np.transpose(X, (0, 2, 1)), f"{what}: antisymmetric", 1e-7)
            obs.equal(orc.rank(X.real.reshape(15, 36), 1e-6), 15, f"{what}: all of so(6)")
        else:
            # y, z, x order or any other: the vectors are the cross product algebra
            X = np.array(mk("O3", 1, -1).X)
            eps = np.zeros((3, 3, 3))
            for p in itertools.permutations(range(3)):
                eps[p] = orc.perm_sign(p)
            for r in (mk("O3", 1, -1), mk("O3", 1, 1), mk("SO3", 1), mk("SU2Real", 1)):
                obs.close(r.X, -eps, f"{r}: infinitesimal rotations about the three axes", 1e-12)
            obs.zero(X + np.transpose(X, (0, 2, 1)), f"{what}: antisymmetric", 1e-10)
            C = obs.call("clebsch_gordan", lie.clebsch_gordan, mk("O3", 1, -1), mk("O3", 1, -1),
                         mk("O3", 1, 1))[0, :, :, :]
            obs.zero(C + np.transpose(C, (1, 0, 2)), f"{what}: cross product", 1e-8)
            D = obs.call("clebsch_gordan", lie.clebsch_gordan, mk("O3", 1, -1), mk("O3", 1, -1),
                         mk("O3", 0, 1))[0, :, :, 0]
            obs.close(np.abs(D), np.eye(3) * np.abs(D[0, 0]), f"{what}: scalar product", 1e-8)
            obs.check(np.all(np.diag(D).real > 1e-3) or np.all(np.diag(D).real < -1e-3),
                      f"{what}: definite")
        obs.feature(m, case.get("g"))
