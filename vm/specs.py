"""JSON-serialisable descriptions of representations.

``build(spec)`` makes the library's object, ``dense(spec)`` makes (A, X, H) independently of the
library's composition code: from the generators of the tabulated irreps with plain numpy."""
import itertools

import numpy as np

import lie_nn as lie
from lie_nn import irreps as I
from lie_nn._src.irreps.sun import SUN

from .core import Violation

# ---------------------------------------------------------------------------------------------
# groups
# ---------------------------------------------------------------------------------------------


class Group:
    def __init__(self, name, cls, make, labels, dim, lie_dim, n_h, absolutely=True, fmt=None):
        self.name = name
        self.cls = cls
        self._make = make
        self.labels = labels  # bound -> list of labels (lists), in no particular order
        self.dim = dim
        self.lie_dim = lie_dim
        self.n_h = n_h
        self.fmt = fmt

    def make(self, label):
        return self._make(label)

    def label(self, rep):
        """label of a tabulated irrep, read from its public fields"""
        if hasattr(rep, "S"):
            return [int(x) for x in rep.S]
        if self.name == "SU2Real":
            j = float(rep.j)
            return [int(j) if j == int(j) else j]
        fields = {
            "SU2": "j", "SO3": "l", "O3": "lp", "SL2C": "lk", "SO13": "lk", "Z2": "p",
        }[self.name]
        return [int(getattr(rep, f)) for f in fields]


def _sun_labels(n):
    def f(bound):
        return [
            list(s) + [0]
            for s in itertools.product(range(bound + 1), repeat=n - 1)
            if all(a >= b for a, b in zip(s, s[1:]))
        ]

    return f


def sun_dim(s):
    n = len(s)
    num, den = 1, 1
    for i in range(n):
        for j in range(i + 1, n):
            num *= s[i] - s[j] + j - i
            den *= j - i
    return num // den


def _real_j(x):
    return int(x) if x == int(x) else float(x)


def _sun_class(n):
    """a further group, implemented by a user the way the library implements SU4"""

    @classmethod
    def iterator(cls):
        for j1 in itertools.count(0):
            for js in itertools.combinations_with_replacement(range(j1, -1, -1), n - 2):
                yield cls(S=(j1,) + js + (0,))

    return type(f"SU{n}", (SUN,), {"iterator": iterator, "__module__": __name__})


SU5, SU6, SU7, SU8 = map(_sun_class, (5, 6, 7, 8))


GROUPS = {}
for g in [
    Group("SU2", I.SU2, lambda l: I.SU2(j=l[0]), lambda b: [[j] for j in range(b + 1)],
          lambda l: l[0] + 1, 3, 0, fmt=lambda l: f"{l[0]}"),
    Group("SO3", I.SO3, lambda l: I.SO3(l=l[0]), lambda b: [[j] for j in range(b + 1)],
          lambda l: 2 * l[0] + 1, 3, 0, fmt=lambda l: f"{l[0]}"),
    Group("O3", I.O3, lambda l: I.O3(l=l[0], p=l[1]),
          lambda b: [[j, p] for j in range(b + 1) for p in (1, -1)],
          lambda l: 2 * l[0] + 1, 3, 1, fmt=lambda l: f"{l[0]}{'e' if l[1] == 1 else 'o'}"),
    Group("SU2Real", I.SU2Real, lambda l: I.SU2Real(j=_real_j(l[0])),
          lambda b: [[_real_j(j / 2)] for j in range(2 * b + 1)],
          lambda l: int(2 * l[0] + 1) * (1 if l[0] == int(l[0]) else 2), 3, 0),
    Group("SL2C", I.SL2C, lambda l: I.SL2C(l=l[0], k=l[1]),
          lambda b: [[i, j] for i in range(b + 1) for j in range(b + 1)],
          lambda l: (l[0] + 1) * (l[1] + 1), 6, 0, fmt=lambda l: f"({l[0]},{l[1]})"),
    Group("SO13", I.SO13, lambda l: I.SO13(l=l[0], k=l[1]),
          lambda b: [[i, j] for i in range(b + 1) for j in range(b + 1) if (i + j) % 2 == 0],
          lambda l: (l[0] + 1) * (l[1] + 1), 6, 0, fmt=lambda l: f"({l[0]},{l[1]})"),
    Group("Z2", I.Z2, lambda l: I.Z2(p=l[0]), lambda b: [[1], [-1]], lambda l: 1, 0, 1,
          fmt=lambda l: "e" if l[0] == 1 else "o"),
    Group("SU2_", I.SU2_, lambda l: I.SU2_(tuple(l)), _sun_labels(2), sun_dim, 3, 0,
          fmt=lambda l: "(" + ",".join(map(str, l)) + ")"),
    Group("SU3", I.SU3, lambda l: I.SU3(tuple(l)), _sun_labels(3), sun_dim, 8, 0,
          fmt=lambda l: "(" + ",".join(map(str, l)) + ")"),
    Group("SU4", I.SU4, lambda l: I.SU4(tuple(l)), _sun_labels(4), sun_dim, 15, 0,
          fmt=lambda l: "(" + ",".join(map(str, l)) + ")"),
]:
    GROUPS[g.name] = g

ALL = list(GROUPS)  # the groups that the library exports
GROUPS["SU5"] = Group("SU5", SU5, lambda l: SU5(tuple(l)), _sun_labels(5), sun_dim, 24, 0,
                      fmt=lambda l: "(" + ",".join(map(str, l)) + ")")
for _n, _c in ((6, SU6), (7, SU7), (8, SU8)):
    GROUPS[f"SU{_n}"] = Group(f"SU{_n}", _c, (lambda c: lambda l: c(tuple(l)))(_c), _sun_labels(_n), sun_dim,
                              _n * _n - 1, 0, fmt=lambda l: "(" + ",".join(map(str, l)) + ")")
ALL_AND_SU5 = ALL + ["SU5"]
HIGH = ["SU6", "SU7", "SU8"]


def random_label(g, rng, hi):
    """a label with numbers up to about hi"""
    if "*" in g:
        return [x for f in GROUPS[g].factors for x in random_label(f, rng, hi)]
    if g == "Z2":
        return [int(rng.choice([1, -1]))]
    v = [int(x) for x in rng.integers(0, hi + 1, size=9)]
    if g == "O3":
        return [v[0], int(rng.choice([1, -1]))]
    if g == "SU2Real":
        return [_real_j(v[0] / 2)]
    if g in ("SU2", "SO3"):
        return [v[0]]
    if g == "SL2C":
        return v[:2]
    if g == "SO13":
        return [v[0], v[0] + 2 * int(rng.integers(-(v[0] // 2), (hi - v[0]) // 2 + 1))]
    n = len(GROUPS[g].labels(1)[0])
    return sorted(v[: n - 1], reverse=True) + [0]


def next_to(g, rng, l):
    """a label that differs little from l, or not at all"""
    if "*" in g:
        out = []
        for f in GROUPS[g].factors:
            n = len(GROUPS[f].labels(1)[0])
            out += next_to(f, rng, l[len(out):len(out) + n])
        return out
    l = list(l)
    i = int(rng.integers(len(l)))
    if g == "Z2" or (g == "O3" and i == 1):
        l[i] = -l[i] if rng.random() < 0.7 else l[i]
    elif g == "SU2Real":
        l[0] = _real_j(max(0, l[0] + int(rng.integers(-2, 3)) / 2))
    elif g in ("SL2C", "SO13"):
        a, b = [(1, -1), (-1, 1), (2, 0), (0, 2), (1, 1), (-2, 0), (0, 0)][int(rng.integers(7))]
        if min(l[0] + a, l[1] + b) >= 0:
            l = [l[0] + a, l[1] + b]
    elif g in ("SU2", "SO3", "O3"):
        l[0] = max(0, l[0] + int(rng.integers(-2, 3)))
    else:
        l[i] = max(0, l[i] + int(rng.integers(-1, 2)))
        l = sorted(l[:-1], reverse=True) + [0]
    return l


class ProductGroup(Group):
    """direct product of two groups; labels are the concatenated labels"""

    def __init__(self, g1, g2):
        G1, G2 = GROUPS[g1], GROUPS[g2]
        self.name, self.factors = f"{g1}*{g2}", (g1, g2)
        self.cls = lie.group_product(G1.make(G1.labels(1)[0]), G2.make(G2.labels(1)[0])).__class__
        self.lie_dim, self.n_h = G1.lie_dim + G2.lie_dim, G1.n_h + G2.n_h
        self.n1 = len(G1.labels(1)[0])
        self.labels = lambda b: [a + c for a in G1.labels(b) for c in G2.labels(b)]
        self.dim = lambda l: G1.dim(l[: self.n1]) * G2.dim(l[self.n1 :])
        self.fmt = None

    def make(self, l):
        g1, g2 = self.factors
        return lie.group_product(GROUPS[g1].make(list(l[: self.n1])), GROUPS[g2].make(list(l[self.n1 :])))

    def label(self, rep):
        return GROUPS[self.factors[0]].label(rep.rep1) + GROUPS[self.factors[1]].label(rep.rep2)


PRODUCTS = []
for _g in [("SU2", "SL2C"), ("SU2", "SU3"), ("SL2C", "SO3"), ("SU3", "SU3"), ("O3", "SU2"), ("SO3", "Z2"),
           ("Z2", "Z2"), ("SU3", "SL2C"), ("SO13", "SU2_"), ("SU2_", "SU2"), ("O3", "O3")]:
    _G = ProductGroup(*_g)
    GROUPS[_G.name] = _G
    PRODUCTS.append(_G.name)


def small_labels(g, maxdim, bound=8):
    G = GROUPS[g]
    out = [l for l in G.labels(bound) if G.dim(l) <= maxdim]
    return out


def is_half(g, label):
    return g == "SU2Real" and label[0] != int(label[0])


# ---------------------------------------------------------------------------------------------
# changes of basis: well conditioned (condition number <= 2.2)
# ---------------------------------------------------------------------------------------------


def _haar(rng, d, cplx):
    a = rng.normal(size=(d, d)) + (1j * rng.normal(size=(d, d)) if cplx else 0.0)
    q, r = np.linalg.qr(a)
    ph = np.diag(r)
    return q * (ph / np.abs(ph))


def basis(q, d):
    """q = [kind, seed]"""
    if q is None:
        return None
    kind, seed = q
    rng = np.random.default_rng([977, seed, d])
    if kind == "orth":
        return _haar(rng, d, False)
    if kind == "unit":
        return _haar(rng, d, True)
    if kind == "perm":
        return np.eye(d)[rng.permutation(d)]
    if kind == "signperm":
        return np.eye(d)[rng.permutation(d)] * rng.choice([-1.0, 1.0], size=d)
    if kind == "diag":
        return np.diag(rng.uniform(0.7, 1.5, size=d))
    if kind == "signs":
        return np.diag(rng.choice([-1.0, 1.0], size=d))
    if kind == "phases":
        return np.diag(np.exp(1j * rng.uniform(0, 2 * np.pi, size=d)))
    if kind == "scalar":  # a multiple of the identity
        return np.exp(1j * rng.uniform(0, 2 * np.pi)) * np.eye(d) if rng.random() < 0.5 else \
            rng.choice([-1.0, 1.0]) * rng.uniform(0.7, 1.5) * np.eye(d)
    if kind == "near":  # close to the identity
        return np.eye(d) + 1e-3 * rng.uniform(-1, 1, size=(d, d))
    if kind == "nearc":  # close to the identity, with small imaginary parts
        return np.eye(d) + 1e-5j * rng.uniform(-1, 1, size=(d, d))
    if kind == "closer":  # hardly different from the identity
        return np.diag(1 + 3e-6 * rng.uniform(-1, 1, size=d))
    if kind == "wide":  # columns of very different lengths
        return np.diag(10.0 ** rng.uniform(-3, 3, size=d))
    if kind == "widerot":
        return _haar(rng, d, False) * 10.0 ** rng.uniform(-3, 3, size=d)
    if kind == "rev":
        return np.eye(d)[::-1].copy()
    s = rng.uniform(0.7, 1.5, size=d)
    if kind == "real":
        return (_haar(rng, d, False) * s) @ _haar(rng, d, False)
    if kind == "cplx":
        return (_haar(rng, d, True) * s) @ _haar(rng, d, True)
    if kind == "tri":
        return np.eye(d) + np.triu(rng.uniform(-0.5, 0.5, size=(d, d)), 1) / max(1, d - 1)
    raise ValueError(kind)


QKINDS = ["orth", "unit", "perm", "signperm", "diag", "real", "cplx", "tri", "signs", "phases", "scalar",
          "near", "rev", "nearc", "closer"]
UNITARY = ["orth", "unit", "perm", "signperm", "signs", "phases", "rev"]


def rand_q(rng, kinds=QKINDS):
    return [str(rng.choice(kinds)), int(rng.integers(10**6))]


# ---------------------------------------------------------------------------------------------
# representations
# ---------------------------------------------------------------------------------------------


class UserRep(lie.Rep):
    """A user-defined subclass of the abstract class: only the four abstract methods."""

    def __init__(self, A, X, H):
        self._a, self._x, self._h = A, X, H

    def algebra(self):
        return self._a

    def continuous_generators(self):
        return self._x

    def discrete_generators(self):
        return self._h

    def create_trivial(self):
        return UserRep(self._a, np.zeros((len(self._x), 1, 1)), np.ones((len(self._h), 1, 1)))


def tab(g, *label):
    return {"k": "tab", "g": g, "l": [x for x in label]}


def build(s):
    k = s["k"]
    if k == "tab":
        return GROUPS[s["g"]].make(s["l"])
    if k == "mul":
        return lie.MulIrrep(mul=s["m"], rep=build(s["r"]))
    if k == "red":
        irreps = tuple(lie.MulIrrep(mul=m, rep=build(r)) for m, r in s["t"])
        d = dim(s)
        return lie.ReducedRep.from_irreps(irreps, basis(s.get("q"), d))
    if k in ("gen", "ext", "tor"):
        return lie.GenericRep(*dense(s))
    if k == "user":
        return UserRep(*dense(s))
    if k == "gp":
        return lie.group_product(*[build(r) for r in s["r"]])
    if k == "sn":
        return {
            "nat": lie.finite.Sn_natural, "std": lie.finite.Sn_standard,
            "tri": lie.finite.Sn_trivial,
        }[s["t"]](s["n"])
    raise ValueError(k)


def dim(s):
    k = s["k"]
    if k == "tab":
        return GROUPS[s["g"]].dim(s["l"])
    if k == "mul":
        return s["m"] * dim(s["r"])
    if k == "red":
        return sum(m * dim(r) for m, r in s["t"])
    if k in ("gen", "user"):
        return dim(s["r"])
    if k == "ext":
        return 2 * dim(s["r"])
    if k == "tor":
        return 1
    if k == "gp":
        return int(np.prod([dim(r) for r in s["r"]]))
    if k == "sn":
        return {"nat": s["n"], "std": s["n"] - 1, "tri": 1}[s["t"]]
    raise ValueError(k)


def n_gen(s):
    """numbers of continuous and of discrete generators"""
    _, X, H = dense(s)
    return len(X), len(H)


def bdiag(ms):
    n = sum(m.shape[0] for m in ms)
    cplx = any(np.iscomplexobj(m) for m in ms)
    out = np.zeros((n, n), dtype=complex if cplx else float)
    i = 0
    for m in ms:
        out[i : i + m.shape[0], i : i + m.shape[0]] = m
        i += m.shape[0]
    return out


def bdiag_list(ms):
    return np.array([bdiag(m) for m in ms])


def conj_by(q, Y):
    if q is None:
        return Y
    iq = np.linalg.inv(q)
    return np.array([q @ y @ iq for y in Y]).reshape((len(Y),) + q.shape)


def raw(rep):
    """(A, X, H) of a library object as independent copies"""
    return (
        np.array(rep.algebra()),
        np.array(rep.continuous_generators()),
        np.array(rep.discrete_generators()),
    )


def dense(s):
    k = s["k"]
    if k in ("tab", "sn"):
        A, X, H = raw(build(s))
        d = dim(s)
        if X.shape != (len(A), d, d) or H.shape[1:] != (d, d):
            raise Violation(f"{s}: generators of shape {X.shape}, {H.shape}, algebra {A.shape}")
        return A, X, H
    if k == "mul":
        A, X, H = dense(s["r"])
        I_ = np.eye(s["m"])
        d = s["m"] * X.shape[1]
        return (
            A,
            np.array([np.kron(I_, x) for x in X]).reshape(len(X), d, d),
            np.array([np.kron(I_, h) for h in H]).reshape(len(H), d, d),
        )
    if k == "red":
        parts = [dense({"k": "mul", "m": m, "r": r}) for m, r in s["t"]]
        d = dim(s)
        A = parts[0][0]
        X = [bdiag([p[1][i] for p in parts]) for i in range(len(A))]
        H = [bdiag([p[2][i] for p in parts]) for i in range(len(parts[0][2]))]
        q = basis(s.get("q"), d)
        return (
            A,
            conj_by(q, np.array(X).reshape(len(X), d, d)),
            conj_by(q, np.array(H).reshape(len(H), d, d)),
        )
    if k == "ext":  # the sum with the conjugate, and one more discrete generator that swaps them
        A, X, H = dense(s["r"])
        d = X.shape[1] if len(X) else H.shape[1]
        sw = np.eye(2 * d)[np.r_[d : 2 * d, 0:d]]
        X = np.array([bdiag([x, x.conj()]) for x in X]).reshape(len(X), 2 * d, 2 * d)
        H = np.array([bdiag([h, h.conj()]) for h in H] + [sw])
        return A, X, H
    if k == "tor":  # U(1)^k x (Z12)^m: weights and phases
        w, p = np.array(s["w"], dtype=float), np.array(s["p"], dtype=float)
        n = len(w)
        return (np.zeros((n, n, n)), 1j * w.reshape(n, 1, 1),
                np.exp(2j * np.pi * p / 12).reshape(len(p), 1, 1))
    if k in ("gen", "user"):
        A, X, H = dense(s["r"])
        q = basis(s.get("q"), X.shape[1])
        return A, conj_by(q, X), conj_by(q, H)
    if k == "gp":
        A, X, H = dense(s["r"][0])
        for r in s["r"][1:]:
            A, X, H = gp_dense((A, X, H), dense(r))
        return A, X, H
    raise ValueError(k)


def gp_dense(r1, r2):
    A1, X1, H1 = r1
    A2, X2, H2 = r2
    n1, n2 = len(A1), len(A2)
    A = np.zeros((n1 + n2,) * 3, dtype=np.result_type(A1, A2, float))
    A[:n1, :n1, :n1] = A1
    A[n1:, n1:, n1:] = A2
    d1, d2 = X1.shape[1], X2.shape[1]
    d = d1 * d2
    X = [np.kron(x, np.eye(d2)) for x in X1] + [np.kron(np.eye(d1), x) for x in X2]
    H = [np.kron(x, np.eye(d2)) for x in H1] + [np.kron(np.eye(d1), x) for x in H2]
    return (
        A,
        np.array(X).reshape(n1 + n2, d, d),
        np.array(H).reshape(len(H1) + len(H2), d, d),
    )


def kron_dense(r1, r2):
    """tensor product representation"""
    A1, X1, H1 = r1
    A2, X2, H2 = r2
    d1, d2 = X1.shape[1], X2.shape[1]
    X = [np.kron(x, np.eye(d2)) + np.kron(np.eye(d1), y) for x, y in zip(X1, X2)]
    H = [np.kron(x, y) for x, y in zip(H1, H2)]
    d = d1 * d2
    return A1, np.array(X).reshape(len(X1), d, d), np.array(H).reshape(len(H1), d, d)


def describe(s):
    k = s["k"]
    if k == "tab":
        return f"{s['g']}{tuple(s['l'])}"
    if k == "mul":
        return f"{s['m']}x{describe(s['r'])}"
    if k == "red":
        t = "+".join(f"{m}x{describe(r)}" for m, r in s["t"])
        return t + (f"@{s['q'][0]}" if s.get("q") else "")
    if k in ("gen", "user"):
        return f"{k}({describe(s['r'])})" + (f"@{s['q'][0]}" if s.get("q") else "")
    if k == "gp":
        return "*".join(describe(r) for r in s["r"])
    if k == "ext":
        return f"ext({describe(s['r'])})"
    if k == "tor":
        return f"tor({s['w']},{s['p']})"
    return f"S{s['n']}{s['t']}"


# ---------------------------------------------------------------------------------------------
# random specs
# ---------------------------------------------------------------------------------------------


def pick(rng, xs):
    return xs[int(rng.integers(len(xs)))]


def rand_tab(rng, g, maxdim, integer=True):
    ls = [l for l in small_labels(g, maxdim, 6) if not (integer and is_half(g, l))]
    return tab(g, *pick(rng, ls))


def rand_red(rng, g, maxdim, q="maybe", maxterms=3, maxmul=3, kinds=QKINDS, distinct=False):
    terms, left, used = [], maxdim, []
    for _ in range(int(rng.integers(1, maxterms + 1))):
        ls = [l for l in small_labels(g, left, 4) if not is_half(g, l)]
        if distinct:
            ls = [l for l in ls if l not in used]
        if not ls:
            break
        l = pick(rng, ls)
        used.append(l)
        d = GROUPS[g].dim(l)
        m = int(rng.integers(1, min(maxmul, left // d) + 1))
        terms.append([m, tab(g, *l)])
        left -= m * d
    if not distinct and rng.random() < 0.1:  # a term with multiplicity zero
        terms.insert(int(rng.integers(len(terms) + 1)), [0, rand_tab(rng, g, maxdim)])
    qq = None
    if q == "yes" or (q == "maybe" and rng.random() < 0.6):
        qq = rand_q(rng, kinds)
    return {"k": "red", "t": terms, "q": qq}


KINDS = ["tab", "mul", "red", "redq", "gen", "user"]
# multiples and sums of representations that are not tabulated (as returned by reduce)
ALL_KINDS = KINDS + ["mulg", "redg"]
OPAQUE = ("gen", "user", "mulg", "redg")


def rand_rep(rng, g, kind, maxdim, kinds=QKINDS):
    if kind == "tab":
        return rand_tab(rng, g, maxdim)
    if kind == "mul":
        r = rand_tab(rng, g, max(1, maxdim // 2))
        return {"k": "mul", "m": int(rng.integers(1, max(1, maxdim // dim(r)) + 1)), "r": r}
    if kind == "red":
        return rand_red(rng, g, maxdim, q="no")
    if kind == "redq":
        return rand_red(rng, g, maxdim, q="yes", kinds=kinds)
    if kind == "mulg":
        r = rand_rep(rng, g, pick(rng, ["gen", "user"]), max(1, maxdim // 2), kinds)
        return {"k": "mul", "m": int(rng.integers(1, max(1, maxdim // dim(r)) + 1)), "r": r}
    if kind == "redg":
        terms, left = [], maxdim
        for _ in range(3):
            r = rand_rep(rng, g, pick(rng, ["gen", "user", "tab"]), max(1, left // 2), kinds)
            m = int(rng.integers(1, 3))
            if m * dim(r) <= left:
                terms.append([m, r])
                left -= m * dim(r)
        if not terms:
            terms = [[1, rand_rep(rng, g, "gen", maxdim, kinds)]]
        return {"k": "red", "t": terms, "q": rand_q(rng, kinds) if rng.random() < 0.6 else None}
    r = rand_rep(rng, g, pick(rng, ["tab", "mul", "red"]), maxdim)
    return {"k": kind, "r": r, "q": rand_q(rng, kinds)}


def rand_semi(rng, maxdim, kinds=QKINDS, ext=None, fam=None):
    """sums of representations of a group whose discrete part acts on the continuous one (O(2),
    dihedral groups, SU(3) with its conjugation, ...), or of U(1)^k x (Z12)^m"""
    base, nw, np_, ext = fam or semi_family(rng, ext)
    terms, left = [], maxdim
    for _ in range(4):
        if base == "tor":
            r = {"k": "tor", "w": [int(x) for x in rng.integers(-2, 3, size=nw)],
                 "p": [int(x) for x in rng.integers(0, 12, size=np_)]}
        else:
            r = rand_tab(rng, base, 3)
            if dim(r) == 1 and rng.random() < 0.6:
                r = tab(base, *{"SU2": [1], "SU3": [1, 1, 0], "SO3": [1], "O3": [1, -1]}[base])
        r = {"k": "ext", "r": r} if ext else r
        m = int(rng.integers(1, 3))
        if m * dim(r) <= left:
            terms.append([m, r])
            left -= m * dim(r)
    return {"k": "red", "t": terms or [[1, r]], "q": rand_q(rng, kinds)}


def semi_family(rng, ext=None):
    base = pick(rng, ["tor", "tor", "tor", "SU2", "SU3", "SO3", "O3"])
    nw, np_ = pick(rng, [(1, 0), (2, 0), (0, 1), (1, 1), (0, 2), (3, 0), (1, 2)])
    ext = (base != "tor" or rng.random() < 0.7) if ext is None else ext
    return base, nw, np_, ext


# ---------------------------------------------------------------------------------------------
# groups other than the tabulated ones: several discrete generators (which need not commute with each
# other or with the continuous ones), products of two or three groups, symmetric groups
# ---------------------------------------------------------------------------------------------

THREE = [("O3", "SU2", "O3"), ("Z2", "O3", "Z2"), ("SU2", "Z2", "SL2C"), ("SO3", "O3", "SU3"), ("Z2", "Z2", "Z2"),
         ("SU2", "SU2_", "SO3")]


def rand_family(rng):
    kind = pick(rng, ["semi", "semi", "sn", "gp", "gp", "gp3"])
    if kind == "semi":
        return [kind, *semi_family(rng)]
    if kind == "sn":
        return [kind, int(rng.integers(2, 6))]
    if kind == "gp":
        return [kind, pick(rng, PRODUCTS)]
    return [kind, *pick(rng, THREE)]


def family_tabulated(fam):
    return fam[0] in ("gp", "gp3")


def rand_element(rng, fam, maxdim):
    """a building block of the family"""
    if fam[0] == "semi":
        return pick(rng, rand_semi(rng, maxdim, fam=fam[1:])["t"])[1]
    if fam[0] == "sn":
        ks = [t for t, d in (("nat", fam[1]), ("std", fam[1] - 1), ("tri", 1)) if d <= maxdim]
        return {"k": "sn", "t": pick(rng, ks), "n": fam[1]}
    if fam[0] == "gp":
        return tab(fam[1], *pick(rng, [l for l in small_labels(fam[1], maxdim, 3)
                                       if not ("SU2Real" in fam[1])]))
    rs, left = [], maxdim
    for g in fam[1:]:
        rs.append(rand_tab(rng, g, left))
        left //= dim(rs[-1])
    return {"k": "gp", "r": rs}


def rand_exotic(rng, fam, maxdim, kinds=QKINDS, maxterms=3, opaque=None):
    """a representation of any kind of the given family"""
    k = pick(rng, ["one", "mul", "red", "redq", "redq", "gen", "user"])
    if opaque:
        k = pick(rng, ["gen", "user"])
    terms, left = [], maxdim
    for _ in range(1 if k in ("one", "mul") else int(rng.integers(1, maxterms + 1))):
        r = rand_element(rng, fam, max(1, left))
        if dim(r) > left:
            break
        m = 1 if k == "one" else int(rng.integers(1, max(1, min(3, left // dim(r))) + 1))
        terms.append([m, r])
        left -= m * dim(r)
    terms = terms or [[1, r]]
    if k == "one":
        return terms[0][1]
    if k == "mul":
        return {"k": "mul", "m": terms[0][0], "r": terms[0][1]}
    red = {"k": "red", "t": terms, "q": None if k == "red" else rand_q(rng, kinds)}
    return red if k in ("red", "redq") else {"k": k, "r": red, "q": None}
