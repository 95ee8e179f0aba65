"""C48: finite groups, tori and compact groups with components, tabulated by the user: complex, pseudo-real and
real irreps. Nothing of them is taken from the library: the generators are written down here and everything else
(selection rule, Clebsch-Gordan coefficients) is computed from them."""
import functools
import itertools

import numpy as np

import lie_nn as lie

from . import orc, specs
from .core import Skip
from .p_reps import compare
from .p_rtp import formula_group, judge, projector
from .props import prop

# ---------------------------------------------------------------------------------------------
# the groups: {label: (continuous generators, discrete generators)}, labels in the order of the user
# ---------------------------------------------------------------------------------------------


def w(n, k):
    z = np.exp(2j * np.pi * (k % n) / n)
    return complex(round(z.real, 14) + 0.0, round(z.imag, 14) + 0.0)


def one(*xs):
    return [np.array([[x]], dtype=complex) for x in xs]


ROT = lambda t: np.array([[np.cos(t), -np.sin(t)], [np.sin(t), np.cos(t)]])  # noqa: E731


@functools.lru_cache(maxsize=None)
def table(g):
    """(structure constants, {label: (X, H)}) in increasing order; the first label is the trivial one"""
    T = {}
    n = 0
    if g[0] == "Z" and "x" not in g:
        m = int(g[1:])
        for k in range(m):
            T[k] = [], one(w(m, k))
    elif "x" in g:  # two cyclic factors, two generators
        a, b = (int(x[1:]) for x in g.split("x"))
        for i, j in itertools.product(range(a), range(b)):
            T[i, j] = [], one(w(a, i), w(b, j))
    elif g[:3] == "Dic":  # binary dihedral groups: a^2m = 1, b^2 = a^m, b a b^-1 = a^-1. Dic2 is the quaternion group
        m = int(g[3:])
        for k, (s, t) in enumerate([(1, 1), (1, -1), (-1, 1j ** (m % 2)), (-1, -(1j ** (m % 2)))]):
            T[k] = [], one(s, t)
        for k in range(1, m):
            z = w(2 * m, k)
            T[3 + k] = [], [np.diag([z, z.conjugate()]), np.array([[0, (-1) ** k], [1, 0]], dtype=complex)]
    elif g[0] == "D":
        m = int(g[1:])
        for k, (s, t) in enumerate([(1, 1), (1, -1)] + ([(-1, 1), (-1, -1)] if m % 2 == 0 else [])):
            T[k] = [], [x.real for x in one(s, t)]
        for k in range(1, (m + 1) // 2):
            T[3 + k] = [], [ROT(2 * np.pi * k / m), np.diag([1.0, -1.0])]
    elif g == "A4":
        for k in range(3):
            T[k] = [], one(1, w(3, k))
        T[3] = [], [np.diag([1.0, -1.0, -1.0]), np.eye(3)[[2, 0, 1]]]
    elif g == "S4":
        c, t = np.eye(3)[[2, 0, 1]], np.array([[0.0, -1, 0], [1, 0, 0], [0, 0, 1]])  # of the octahedral group
        T[0] = [], [np.eye(1), np.eye(1)]
        T[1] = [], [np.eye(1), -np.eye(1)]
        T[2] = [], [ROT(2 * np.pi / 3), np.diag([1.0, -1.0])]
        T[3], T[4] = ([], [c, t]), ([], [c, -t])
    elif g == "SL23":
        i, j = np.diag([1j, -1j]), np.array([[0, 1], [-1, 0]], dtype=complex)
        h = 0.5 * (np.eye(2) + i + j + i @ j)
        for k in range(3):
            T[k] = [], one(1, w(3, k))
        for k in range(3):
            T[3 + k] = [], [i, h * w(3, k)]
        T[6] = [], [np.diag([1.0, -1.0, -1.0]), np.eye(3)[[2, 0, 1]]]
    elif g == "U1":
        n = 1
        for k in [0, 1, -1, 2, -2, 3, -3, 4, -4, 5, -5, 6, -6, 7, -7, 8, -8, 9, -9, 10, -10, 11, -11, 12, -12]:
            T[k] = one(1j * k), []
    elif g == "U1xZ3":  # a continuous and a discrete generator that commute
        n = 1
        for a, k in itertools.product(sorted(range(-8, 9), key=lambda x: (abs(x), x)), range(3)):
            T[a, k] = one(1j * a), one(w(3, k))
    elif g == "O2":
        n = 1
        T[0], T[-1] = (one(0), one(1)), (one(0), one(-1))
        for k in range(1, 13):
            T[k] = [k * np.array([[0.0, -1], [1, 0]])], [np.diag([1.0, -1.0])]
    elif g == "Pin2":  # odd charges are pseudo-real
        n = 1
        T[0], T[-1] = (one(0), one(1)), (one(0), one(-1))
        for k in range(1, 13):
            T[k] = [np.diag([1j * k, -1j * k])], [np.array([[0, (-1) ** k], [1, 0]], dtype=complex)]
    else:
        raise KeyError(g)
    m = len(T[next(iter(T))][1])
    out = {}
    for l, (X, H) in T.items():
        d = len((X + H)[0])
        out[l] = np.array(X).reshape(n, d, d), np.array(H).reshape(m, d, d)
    return np.zeros((n, n, n)), out


NAMES = ["Z2", "Z3", "Z4", "Z5", "Z6", "Z30", "D15", "Z2xZ4", "Z3xZ3", "Dic2", "Dic3", "Dic4", "D3", "D4", "D5", "D6", "A4", "S4",
         "SL23", "U1", "U1xZ3", "O2", "Pin2"]
INFINITE = {"U1": 3, "U1xZ3": 2, "O2": 3, "Pin2": 3}


def size(l):
    return abs(l[0] if isinstance(l, tuple) else l)


def labels(g):
    """small labels: their products stay in the table"""
    return [l for l in table(g)[1] if g not in INFINITE or size(l) <= INFINITE[g]]


def Y(g, l):
    return np.concatenate([x.astype(complex) for x in table(g)[1][l]])


@functools.lru_cache(maxsize=None)
def coefficients(g, a, b, c):
    """(sol, i, j, k) in the basis of the table"""
    (X1, H1), (X2, H2), (X3, H3) = (table(g)[1][l] for l in (a, b, c))
    d1, d2, d3 = (x.shape[-1] for x in (H1, H2, H3))
    E = np.eye
    M = [np.kron(np.kron(x.T, E(d2)) + np.kron(E(d1), y.T), E(d3)) - np.kron(E(d1 * d2), z)
         for x, y, z in zip(X1, X2, X3)]
    M += [np.kron(np.kron(x.T, y.T), E(d3)) - np.kron(E(d1 * d2), z) for x, y, z in zip(H1, H2, H3)]
    u, s, vh = np.linalg.svd(np.concatenate(M))
    B = vh[len(s) - int(np.sum(s < 1e-9)):].conj() if len(s) == vh.shape[0] else None
    if len(B) > 1:  # reduced row echelon form, then orthonormal
        B = B.copy()
        r = 0
        for col in range(B.shape[1]):
            p = r + int(np.argmax(np.abs(B[r:, col]))) if r < len(B) else r
            if r < len(B) and abs(B[p, col]) > 1e-6:
                B[[r, p]] = B[[p, r]]
                B[r] /= B[r, col]
                for i in range(len(B)):
                    if i != r:
                        B[i] -= B[i, col] * B[r]
                r += 1
        for i in range(len(B)):
            for j in range(i):
                B[i] -= (B[j].conj() @ B[i]) * B[j]
            B[i] /= np.linalg.norm(B[i])
    elif len(B):
        i = int(np.argmax(np.abs(B[0]) > 1e-6))
        B = B / (B[0, i] / abs(B[0, i]))
    B = B.reshape(-1, d1, d2, d3) * np.sqrt(d3)
    return B.real.copy() if np.abs(B.imag).max(initial=0) < 1e-12 else B


@functools.lru_cache(maxsize=None)
def product(g, a, b):
    """{label: multiplicity}: characters of the finite groups and charges would do; here the dimension of the
    space of intertwiners, and the dimensions have to add up"""
    out = {}
    da, db = Y(g, a).shape[-1], Y(g, b).shape[-1]
    for c in table(g)[1]:
        if g in INFINITE and size(c) > size(a) + size(b) + 1:
            continue
        n = len(coefficients(g, a, b, c))
        if n:
            out[c] = n
    assert sum(n * Y(g, c).shape[-1] for c, n in out.items()) == da * db, (g, a, b, out)
    return out


@functools.lru_cache(maxsize=None)
def user_irreps(g, kind, seed):
    A, T = table(g)
    order = {l: i for i, l in enumerate(T)}

    def P(l):
        return specs.basis([kind, seed + 31 * order[l]], T[l][1].shape[-1] or 1) if kind and order[l] else \
            np.eye(T[l][1].shape[-1])

    class Charge(lie.TabulatedIrrep):
        def __init__(self, l):
            object.__setattr__(self, "l", l)

        @classmethod
        def from_string(cls, s):
            return cls({str(l).replace(" ", ""): l for l in T}[s.strip()])

        def __mul__(self, other):
            return [type(self)(l) for l in product(g, self.l, other.l)]

        @property
        def dim(self):
            return Y(g, self.l).shape[-1]

        def __lt__(self, other):
            return order[self.l] < order[other.l]

        def __eq__(self, other):
            return type(self) is type(other) and self.l == other.l

        def __hash__(self):
            return hash(self.l)

        def __repr__(self):
            return f"{g}[{self.l}]"

        @classmethod
        def iterator(cls):
            for l in T:
                yield cls(l)

        def algebra(self=None):
            return A

        def continuous_generators(self):
            return specs.conj_by(P(self.l), T[self.l][0])

        def discrete_generators(self):
            return specs.conj_by(P(self.l), T[self.l][1])

        @classmethod
        def clebsch_gordan(cls, a, b, c):
            return np.einsum("zabc,ai,bj,kc->zijk", coefficients(g, a.l, b.l, c.l), np.linalg.inv(P(a.l)),
                             np.linalg.inv(P(b.l)), P(c.l), optimize=True)

    return Charge


def dense(rep):
    """of one irrep of the user"""
    return table(repr(rep).split("[")[0])[0], np.array(rep.continuous_generators()), np.array(rep.discrete_generators())


def dsum(A, terms, Q=None):
    """[(mul, dense)]"""
    out = []
    d = sum(k * r[1].shape[-1] for k, r in terms)
    for i in (1, 2):
        n = len(terms[0][1][i])
        y = np.array([specs.bdiag([np.kron(np.eye(k), r[i][j]) for k, r in terms]) for j in range(n)])
        y = y.reshape(n, d, d)
        out.append(y if Q is None else specs.conj_by(Q, y))
    return A, out[0], out[1]


def cat(D):
    return np.concatenate([D[1].astype(complex), D[2].astype(complex)])


def kind_of(Y0):
    """Frobenius-Schur: 1 real, -1 pseudo-real, 0 complex"""
    M = orc.hom_operator(Y0, Y0.conj())
    s, vh = np.linalg.svd(M)[1:]
    null = [v.conj() for v, x in zip(vh, s) if x < 1e-8]
    if not null:
        return 0
    S = null[0].reshape(Y0.shape[1:])
    return 1 if np.trace(S @ S.conj()).real > 0 else -1


MODES = ["tp", "pow", "red", "cg", "gcg", "conj", "gp", "gpred", "rtp", "sym", "list", "infer", "reduce", "real", "irr", "exp",
         "triplet", "text", "algebra"]
FORMULAS = ["ij=ji", "ij=-ji", "ijk=jik", "ijk=jki", "ijk=-jik", "ijk=jik=ikj", "ijkl=jikl", "ijkl=klij", "ijk=-jik=-ikj",
            "ij", "ijk", "ijkl=-jikl=klij"]


@prop("C48", "23 groups whose irreps a user tabulates (cyclic, products of cyclic, dihedral, binary dihedral, alternating, symmetric, "
      "binary tetrahedral, U(1), O(2), Pin(2)): complex, pseudo-real and real irreps, with and without another basis, through every "
      "operation of the library.", min_checks=2)
class Tables:
    @staticmethod
    def gen(rng, tier):
        n = 12 if tier == "thorough" else 3
        out = []
        for g in NAMES:
            ls = labels(g)
            for m in MODES:
                for _ in range(n):
                    kind = specs.pick(rng, [None, "signperm"]) if m in ("rtp", "sym", "list") else \
                        specs.pick(rng, [None, "unit", "cplx", "orth", "phases", "real"])
                    out.append({"g": g, "m": m, "q": [kind, int(rng.integers(10**5))],
                                "i": [int(rng.integers(len(ls))) for _ in range(4)],
                                "mul": [int(x) for x in rng.integers(1, 4, size=3)],
                                "s": int(rng.integers(10**7))})
        return out

    @staticmethod
    def run(case, obs):
        g, m = case["g"], case["m"]
        U = user_irreps(g, *case["q"])
        rng = np.random.default_rng(case["s"])
        ls = labels(g)
        a, b, c, e = (U(ls[i]) for i in case["i"])
        A = table(g)[0]
        what = f"{g} {a.l} {b.l} basis {case['q'][0]}: {m}"
        prod = product(g, a.l, b.l)
        obs.feature(g, m, case["q"][0])

        def red(terms, q=None):
            """(library, dense)"""
            R = obs.call("ReducedRep.from_irreps", lie.ReducedRep.from_irreps, [(k, r) for k, r in terms], q)
            D = dsum(A, [(k, dense(r)) for k, r in terms], q)
            compare(obs, R, D, f"{what}: sum", 1e-8)
            return R, D

        def rand_q(d):
            return specs.basis(specs.rand_q(rng, ["unit", "cplx", "orth", "real", "phases", "signperm"]), d) \
                if rng.random() < 0.6 else None

        m1, m2, m3 = case["mul"]
        if m == "tp":
            out = obs.call("tensor_product", lie.tensor_product, a, b)
            compare(obs, out, specs.kron_dense(dense(a), dense(b)), what, 1e-8)
            got = {}
            for i in out.irreps:
                got[i.rep.l] = got.get(i.rep.l, 0) + i.mul
            obs.equal(got, prod, f"{what}: constituents")
        elif m == "pow":
            R, D = (a, dense(a)) if rng.random() < 0.4 else red([(1, a), (1, b)], rand_q(a.dim + b.dim))
            p = int(rng.integers(0, 6))
            while R.dim**p > 40:
                p -= 1
            if g in INFINITE and p * max(size(a.l), size(b.l)) > INFINITE[g] * 2:
                p = 2
            out = obs.call("tensor_power", lie.tensor_power, R, p)
            W = A, np.zeros((len(A), 1, 1)), np.ones((len(D[2]), 1, 1))
            for _ in range(p):
                W = specs.kron_dense(W, D)
            compare(obs, out, W, f"{what} {p}", 1e-7)
        elif m == "red":
            R, D = red([(m1, a), (m2, b)], rand_q(m1 * a.dim + m2 * b.dim))
            S, F = red([(1, c), (1, e)], rand_q(c.dim + e.dim))
            if R.dim * S.dim <= 60:
                out = obs.call("tensor_product", lie.tensor_product, R, S)
                compare(obs, out, specs.kron_dense(D, F), f"{what}: product", 1e-7)
            out = obs.call("direct_sum", lie.direct_sum, R, S)
            compare(obs, out, dsum(A, [(1, D), (1, F)]), f"{what}: direct sum", 1e-8)
        elif m in ("cg", "gcg"):
            l3 = specs.pick(rng, list(prod)) if rng.random() < 0.7 else specs.pick(rng, list(ls))
            r3 = U(l3)
            xs = (a, b, r3) if m == "cg" else tuple(lie.GenericRep(*dense(r)) for r in (a, b, r3))
            C = obs.call("clebsch_gordan", lie.clebsch_gordan, *xs)
            obs.equal(C.shape, (prod.get(l3, 0), a.dim, b.dim, r3.dim), f"{what} {l3}")
            Da, Db, Dc = (dense(r) for r in (a, b, r3))
            for x, y, z in zip(Da[1], Db[1], Dc[1]):
                obs.close(np.einsum("zijk,ia->zajk", C, x) + np.einsum("zijk,jb->zibk", C, y),
                          np.einsum("zijk,lk->zijl", C, z), f"{what} {l3}: equivariance", 1e-6, scale=20)
            for x, y, z in zip(Da[2], Db[2], Dc[2]):
                obs.close(np.einsum("zijk,ia,jb->zabk", C, x, y), np.einsum("zijk,lk->zijl", C, z),
                          f"{what} {l3}: equivariance", 1e-6, scale=5)
            obs.equal(orc.rank(C.reshape(len(C), a.dim * b.dim * r3.dim), 1e-5), len(C), f"{what} {l3}: independent")
        elif m == "conj":
            R, D = red([(m1, a), (1, b)], rand_q(m1 * a.dim + b.dim))
            for r, d in ((a, dense(a)), (R, D)):
                out = obs.call("conjugate", lie.conjugate, r)
                compare(obs, out, (A, d[1].conj(), d[2].conj()), what, 1e-9)
            k = kind_of(cat(dense(a)))
            S = obs.call("infer_change_of_basis", lie.infer_change_of_basis, a, lie.conjugate(a))
            obs.equal(len(S), abs(k), f"{what}: self-conjugate")
        elif m in ("gp", "gpred"):
            h = specs.pick(rng, NAMES)
            V = user_irreps(h, specs.pick(rng, [None, "unit", "cplx"]), 5)
            y = V(specs.pick(rng, labels(h)))
            if rng.random() < 0.3:
                h = specs.pick(rng, ["SO3", "SU2", "O3", "SL2C", "Z2", "SU3"])
                y = specs.GROUPS[h].make(specs.pick(rng, specs.small_labels(h, 3, 2)))
            Dy = np.array(y.algebra()), np.array(y.continuous_generators()), np.array(y.discrete_generators())
            x, Dx = a, dense(a)
            if m == "gpred":
                x, Dx = red([(1, a), (m2, b)], rand_q(a.dim + m2 * b.dim))
            pair, Dp = ((x, y), (Dx, Dy)) if rng.random() < 0.5 else ((y, x), (Dy, Dx))
            out = obs.call("group_product", lie.group_product, *pair)
            compare(obs, out, specs.gp_dense(*Dp), f"{what} with {y}", 1e-8)
            if m == "gp":
                obs.check(isinstance(out, lie.TabulatedIrrep), f"{what}: a tabulated irrep")
                triv = all(d[2].shape[-1] == 1 and not np.any(d[1]) and np.all(d[2] == 1) for d in (Dx, Dy))
                obs.equal(bool(obs.call("is_trivial", out.is_trivial)), triv, f"{what} with {y}: is_trivial")
                b2 = lie.group_product(b, y) if pair[0] is x else lie.group_product(y, b)
                if out.dim * b2.dim <= 40:
                    tp = obs.call("tensor_product", lie.tensor_product, out, b2)
                    Db = dense(b)
                    compare(obs, tp, specs.kron_dense(specs.gp_dense(*Dp),
                                                      specs.gp_dense(*((Db, Dy) if pair[0] is x else (Dy, Db)))),
                            f"{what} with {y}: product", 1e-7)
        elif m in ("rtp", "sym", "list"):
            terms = [(1, a)] if a.dim > 1 and rng.random() < 0.5 else [(1, a), (1, b)]
            if rng.random() < 0.2:
                terms[0] = (2, a)
            d = sum(k * r.dim for k, r in terms)
            q = specs.basis(specs.rand_q(rng, ["unit", "signperm", "phases", "orth"]), d) if rng.random() < 0.4 else None
            R, D = red(terms, q)
            if m == "sym":
                order = 2 if d > 4 else 3 if d > 2 else int(rng.integers(2, 6))
                f0, grp = "ijklm"[:order], orc.perm_group(order, [(1, p) for p in itertools.permutations(range(order))])
            elif m == "rtp":
                f = specs.pick(rng, [f for f in FORMULAS if d ** len(f.split("=")[0]) <= 90] or ["ij=ji"])
                f0, grp = formula_group(f)
            else:
                S, F = red([(1, c)])
                f0, grp = "ijk"[: 2 if d * d * c.dim > 60 else 3], None
            n = len(f0)
            if g in INFINITE and n * max(size(r.l) for _, r in terms) > 9:
                raise Skip("outside of the table")
            if m == "list":
                Rs, Ds = [R, S, R][:n], [D, F, D][:n]
                out = obs.call("reduced_tensor_product_basis", lie.reduced_tensor_product_basis, Rs)
                rank = int(np.prod([r.dim for r in Rs]))
                Pj = np.eye(rank)
            else:
                Ds = [D] * n
                Pj = projector((d,) * n, grp)
                rank = orc.rank(Pj)
                if rank == 0:
                    raise Skip("empty")
                if m == "rtp":
                    out = obs.call("reduced_tensor_product_basis", lie.reduced_tensor_product_basis, f,
                                   **{x: R for x in f0})
                else:
                    out = obs.call("reduced_symmetric_tensor_product_basis",
                                   lie.reduced_symmetric_tensor_product_basis, R, n)
            B = judge(obs, out, Ds, True, what, 1e-5)
            obs.equal(B.shape[1], rank, f"{what}: complete")
            obs.close(Pj @ B, B, f"{what}: symmetry", 1e-5)
        elif m == "infer":
            R, D = red([(m1, a), (1, b)], rand_q(m1 * a.dim + b.dim))
            S, F = red([(1, b), (m2, c)], rand_q(b.dim + m2 * c.dim))
            if (R.dim * S.dim) > 60:
                raise Skip("large")
            w1, w2 = {}, {}
            for k, r in ((m1, a), (1, b)):
                w1[r.l] = w1.get(r.l, 0) + k
            for k, r in ((1, b), (m2, c)):
                w2[r.l] = w2.get(r.l, 0) + k
            k = sum(w1[l] * w2.get(l, 0) for l in w1)
            M = obs.call("infer_change_of_basis", lie.infer_change_of_basis, R, S)
            obs.equal(M.shape, (k, S.dim, R.dim), f"{what}: solutions")
            for x, y in zip(cat(D), cat(F)):
                obs.close(M @ x, y @ M, what, 1e-6, scale=float(np.abs(x).max()) * 3)
            obs.equal(orc.rank(M.reshape(k, S.dim * R.dim), 1e-5), k, f"{what}: independent")
        elif m == "reduce":
            d = m1 * a.dim + b.dim
            q = specs.basis(specs.rand_q(rng, ["unit", "cplx", "orth"]), d)
            R, D = red([(m1, a), (1, b)], q)
            out = obs.call("reduce", lie.reduce, lie.GenericRep(*D))
            compare(obs, out, D, what, 1e-5)
            obs.equal(sorted(i.rep.dim for i in out.irreps for _ in range(i.mul)), sorted([a.dim] * m1 + [b.dim]),
                      f"{what}: dimensions")
            for i in out.irreps:
                y = np.concatenate([np.array(i.rep.X), np.array(i.rep.H)]).astype(complex)
                obs.equal(orc.hom_dim(y, y, 1e-5)[0], 1, f"{what}: irreducible")
        elif m == "real":
            q = specs.basis(specs.rand_q(rng, ["unit", "orth", "phases"]), a.dim)
            D = dense(U(a.l)) if case["q"][0] in (None, "unit", "orth", "phases") else (A, *table(g)[1][a.l])
            D = A, specs.conj_by(q, D[1]), specs.conj_by(q, D[2])
            r = lie.GenericRep(*D)
            k = kind_of(cat(D))
            obs.equal(bool(obs.call("is_real", lie.is_real, r)), k == 1, f"{what}: is_real")
            if k == 1:
                out = obs.call("make_explicitly_real", lie.make_explicitly_real, r)
                Z = cat((A, np.array(out.X), np.array(out.H)))
                obs.zero(Z.imag, f"{what}: real", 1e-8)
                obs.equal(orc.hom_dim(cat(D), Z, 1e-5)[0], 1, f"{what}: equivalent")
            else:
                obs.raises("make_explicitly_real", lie.make_explicitly_real, r, exc=ValueError)
            obs.feature("type", g, k, a.dim)
        elif m == "irr":
            R, D = red([(1, a), (1, b)], rand_q(a.dim + b.dim))
            obs.equal(bool(obs.call("is_irreducible", lie.is_irreducible, lie.GenericRep(*dense(a)))), True, f"{what}: irrep")
            obs.equal(bool(obs.call("is_irreducible", lie.is_irreducible, lie.GenericRep(*D))), False, f"{what}: sum")
            if case["q"][0] in (None, "unit", "orth", "phases"):
                obs.equal(bool(obs.call("is_unitary", lie.is_unitary, a)), True, f"{what}: unitary")
            triv = a.l == list(table(g)[1])[0]
            obs.equal(bool(obs.call("is_trivial", a.is_trivial)), triv, f"{what}: is_trivial")
        elif m == "exp":
            R, D = red([(m1, a), (1, b)], rand_q(m1 * a.dim + b.dim))
            x = rng.normal(size=len(D[1]))
            k = rng.integers(-4, 7, size=len(D[2]))
            want = np.eye(R.dim)
            for h, p in zip(D[2], k):
                want = want @ np.linalg.matrix_power(h, int(p))
            if len(x):
                want = want @ orc.expm(np.einsum("a,aij->ij", x, D[1]))
            obs.close(obs.call("exp_map", R.exp_map, x, k), want, what, 1e-8)
        elif m == "triplet":
            if a.dim * b.dim > 12:
                raise Skip("large")
            obs.call("check_representation_triplet", lie.check_representation_triplet, a, b,
                     U(specs.pick(rng, list(prod))), rtol=1e-6, atol=1e-6)
        elif m == "text":
            s = {str(l).replace(" ", ""): l for l in ls}
            s = {k: l for k, l in s.items() if not set(k) & set("+x") and not k.startswith("(")}
            if not s:
                raise Skip("labels that are not words")
            ks = [specs.pick(rng, list(s)) for _ in range(3)]
            R = obs.call("ReducedRep.from_string", lie.ReducedRep.from_string,
                         " + ".join(f"{k}x{t}" for k, t in zip((m1, m2, m3), ks)), U)
            obs.equal([(i.mul, i.rep) for i in R.irreps], [(k, U(s[t])) for k, t in zip((m1, m2, m3), ks)], what)
        elif m == "algebra":
            # another scale of the only continuous direction, if there is one
            t = float(rng.uniform(0.5, 2)) * (-1) ** int(rng.integers(2))
            if not len(A):
                t = None
            out = obs.call("change_algebra", lie.change_algebra, a, np.full((len(A), len(A)), t or 1.0))
            D = dense(a)
            compare(obs, out, (A, D[1] if t is None else t * D[1], D[2]), what, 1e-8)
            q = specs.basis(specs.rand_q(rng, ["unit", "cplx", "orth"]), a.dim)
            out = obs.call("change_basis", lie.change_basis, a, q)
            compare(obs, out, (A, specs.conj_by(q, D[1]), specs.conj_by(q, D[2])), what, 1e-8)
