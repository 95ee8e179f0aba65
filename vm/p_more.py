"""C44-C46: expression programs, copies, refusals."""
import copy
import pickle

import numpy as np

import lie_nn as lie

from . import core, specs
from .core import Skip
from .p_reps import GS, compare
from .props import prop
from .specs import GROUPS

# ---------------------------------------------------------------------------------------------
# C44: programs made of several operations, values reused by later steps
# ---------------------------------------------------------------------------------------------

UNARY = ["cb", "cb", "ca", "conj", "reduce", "generic", "mul", "triv", "red1", "user", "pow"]
BINARY = ["tp", "tp", "ds", "ds", "gp", "sum"]


class Val:
    """a value of the program: the library's object, its (A, X, H) by plain numpy, the name of its group"""

    def __init__(self, rep, D, group, bent, exact=True):
        self.rep, self.D, self.group, self.bent, self.exact = rep, D, group, bent, exact

    @property
    def dim(self):
        return (self.D[1] if len(self.D[1]) else self.D[2]).shape[-1]


def dtriv(D):
    A, X, H = D
    return A, np.zeros((len(X), 1, 1)), np.ones((len(H), 1, 1))


def dsum(Ds):
    A = Ds[0][0]
    d = sum((D[1] if len(D[1]) else D[2]).shape[-1] for D in Ds)
    X = [specs.bdiag([D[1][i] for D in Ds]) for i in range(len(A))]
    H = [specs.bdiag([D[2][i] for D in Ds]) for i in range(len(Ds[0][2]))]
    return A, np.array(X).reshape(len(X), d, d), np.array(H).reshape(len(H), d, d)


def has_product(rep):
    """contains an irrep of a product of groups (its enumeration is declared not implemented)"""
    if isinstance(rep, lie.MulIrrep):
        return has_product(rep.rep)
    if isinstance(rep, lie.ReducedRep):
        return any(has_product(x) for x in rep.irreps)
    return isinstance(rep, lie.TabulatedIrrep) and type(rep).__name__ == "TabulatedIrrepProduct"


@prop("C44", "Programs of 4 to 9 operations (tensor product and power, direct sum, sums with multiplicities, "
      "change of basis and of algebra, conjugate, reduce, group product, trivial, conversion to generic or "
      "user-defined) over leaves of all kinds; results are reused by later operations; after every operation the "
      "generators equal those of the same program evaluated with plain numpy, and those of all earlier values "
      "are what they were.", min_checks=10)
class Programs:
    @staticmethod
    def gen(rng, tier):
        n = 700 if tier == "thorough" else 240
        out = []
        for i in range(n):
            g = GS[i % len(GS)]
            md = {"SU4": 4, "SU3": 3, "SO13": 4, "Z2": 2}.get(g, 3)
            leaves = [specs.rand_rep(rng, g, specs.pick(rng, specs.ALL_KINDS), md, specs.UNITARY)
                      for _ in range(int(rng.integers(2, 4)))]
            if rng.random() < 0.3:
                g2 = specs.pick(rng, ["SU2", "SO3", "Z2", "O3", "SU2Real"])
                leaves.append(specs.rand_rep(rng, g2, specs.pick(rng, specs.ALL_KINDS), 3,
                                             specs.UNITARY))
            steps = []
            for _ in range(int(rng.integers(4, 10))):
                two = rng.random() < 0.5
                steps.append([specs.pick(rng, BINARY if two else UNARY),
                              int(rng.integers(10**6)), int(rng.integers(10**6))])
            out.append({"g": g, "leaves": leaves, "steps": steps})
        return out

    @staticmethod
    def run(case, obs):
        vals = []
        for s in case["leaves"]:
            g = s
            while g["k"] != "tab":
                g = g["r"] if "r" in g else g["t"][0][1]
            vals.append(Val(specs.build(s), specs.dense(s), g["g"], 0))
        cap = 12 if case["g"] == "SU4" else 18
        done = []
        prog = ", ".join(specs.describe(s) for s in case["leaves"])
        for op, s1, s2 in case["steps"]:
            rng = np.random.default_rng([s1, s2])
            a = vals[-1] if rng.random() < 0.5 else specs.pick(rng, vals)
            out = Programs.step(op, a, vals, rng, obs, cap)
            if out is None:
                continue
            done.append(op)
            prog += f"; {op}"
            compare(obs, out.rep, out.D, f"program [{prog}]", 1e-8 if out.exact else 1e-6)
            vals.append(out)
        if len(done) < 2:
            raise Skip("the program had no applicable step")
        for i, v in enumerate(vals):
            compare(obs, v.rep, v.D, f"program [{prog}]: value {i} at the end",
                    1e-8 if v.exact else 1e-6)
        v = vals[-1]
        A, X, H = v.D
        d = v.dim
        obs.equal(bool(obs.call("is_trivial", v.rep.is_trivial)),
                  d == 1 and not np.any(X) and bool(np.all(H == 1)), f"program [{prog}]: is_trivial") \
            if d != 1 or v.exact and not np.any((np.abs(X) < 1e-6) & (X != 0)) \
            and not np.any((np.abs(H - 1) < 1e-6) & (H != 1)) else None
        t = obs.call("create_trivial", v.rep.create_trivial) if not has_product(v.rep) else None
        if t is not None:
            compare(obs, t, dtriv(v.D), f"program [{prog}]: create_trivial")
        for op in done:
            obs.feature("step", op)
        obs.feature(case["g"], "-".join(done[-2:]), type(v.rep).__name__)

    @staticmethod
    def step(op, a, vals, rng, obs, cap):
        def peers(limit):
            return [v for v in vals if v.group == a.group and limit(v)]

        exact = a.exact
        if op == "tp":
            bs = peers(lambda v: v.dim * a.dim <= cap)
            if not bs:
                return None
            b = specs.pick(rng, bs)
            a, b = (a, b) if rng.random() < 0.5 else (b, a)
            return Val(obs.call("tensor_product", lie.tensor_product, a.rep, b.rep),
                       specs.kron_dense(a.D, b.D), a.group, a.bent + b.bent, a.exact and b.exact)
        if op == "ds":
            bs = peers(lambda v: v.dim + a.dim <= cap)
            if not bs:
                return None
            b = specs.pick(rng, bs)
            return Val(obs.call("direct_sum", lie.direct_sum, a.rep, b.rep), dsum([a.D, b.D]), a.group,
                       max(a.bent, b.bent), a.exact and b.exact)
        if op == "sum":  # a sum with multiplicities of values of the program
            bs = [specs.pick(rng, peers(lambda v: True)) for _ in range(int(rng.integers(1, 4)))]
            ms = [int(m) for m in rng.integers(0, 3, size=len(bs))]
            bs = [(m, b) for m, b in zip(ms, bs)] + [(1, a)]
            if sum(m * b.dim for m, b in bs) > cap:
                return None
            items = []
            for m, b in bs:
                if m == 1 and rng.random() < 0.3:
                    items.append(b.rep)
                elif isinstance(b.rep, lie.MulIrrep) or rng.random() < 0.5:
                    items.append((m, b.rep))
                else:
                    items.append(lie.MulIrrep(m, b.rep))
            # a MulIrrep given as such is a term, with its own multiplicity
            D = dsum([b.D for m, b in bs for _ in range(m)])
            d = sum(m * b.dim for m, b in bs)
            q = specs.basis(specs.rand_q(rng, specs.UNITARY), d) if rng.random() < 0.4 else None
            D = (D[0], specs.conj_by(q, D[1]), specs.conj_by(q, D[2]))
            return Val(obs.call("from_irreps", lie.ReducedRep.from_irreps, items, q), D, a.group,
                       max(b.bent for m, b in bs), all(b.exact for m, b in bs))
        if op == "gp":
            b = specs.pick(rng, vals)
            if a.dim * b.dim > cap or len(a.D[0]) + len(b.D[0]) > 18:
                return None
            return Val(obs.call("group_product", lie.group_product, a.rep, b.rep),
                       specs.gp_dense(a.D, b.D), f"({a.group} x {b.group})", a.bent + b.bent,
                       a.exact and b.exact)
        if op == "pow":
            n = int(rng.integers(0, 4))
            if a.dim**n > cap or has_product(a.rep):
                return None
            D = dtriv(a.D)
            for _ in range(n):
                D = specs.kron_dense(a.D, D)
            return Val(obs.call("tensor_power", lie.tensor_power, a.rep, n), D, a.group, n * a.bent, exact)
        if op == "cb":
            kinds = specs.UNITARY if a.bent or rng.random() < 0.7 else specs.QKINDS
            q = specs.rand_q(rng, kinds)
            Q = specs.basis(q, a.dim)
            return Val(obs.call("change_basis", lie.change_basis, a.rep, Q),
                       (a.D[0], specs.conj_by(Q, a.D[1]), specs.conj_by(Q, a.D[2])), a.group,
                       a.bent + (q[0] not in specs.UNITARY), exact)
        if op == "ca":
            n = len(a.D[0])
            if n == 0:
                return None
            q = specs.rand_q(rng, ["orth", "perm", "signperm", "signs", "rev"])
            Q = specs.basis(q, n)
            A, X, H = a.D
            D = (np.einsum("ia,jb,abc,ck->ijk", Q, Q, A, np.linalg.inv(Q), optimize=True),
                 np.einsum("ia,auv->iuv", Q, X), H)
            return Val(obs.call("change_algebra", lie.change_algebra, a.rep, Q), D,
                       f"{a.group}/{q[0]}{q[1]}", a.bent, exact)
        if op == "conj":
            return Val(obs.call("conjugate", lie.conjugate, a.rep),
                       (a.D[0], a.D[1].conj(), a.D[2].conj()), a.group, a.bent, exact)
        if op == "reduce":
            if a.bent > 1 or a.dim > 9 and not isinstance(a.rep, (lie.ReducedRep, lie.MulIrrep)):
                return None
            return Val(obs.call("reduce", lie.reduce, a.rep), a.D, a.group, a.bent, False)
        if op == "generic":
            return Val(obs.call("from_rep", lie.GenericRep.from_rep, a.rep), a.D, a.group, a.bent, exact)
        if op == "user":
            return Val(specs.UserRep(*[np.array(x) for x in a.D]), a.D, a.group, a.bent, exact)
        if op == "mul":
            m = int(rng.integers(1, 4))
            if m * a.dim > cap:
                return None
            return Val(lie.MulIrrep(mul=m, rep=a.rep), dsum([a.D] * m), a.group, a.bent, exact)
        if op == "red1":
            return Val(obs.call("from_irreps", lie.ReducedRep.from_irreps, [a.rep]), a.D, a.group,
                       a.bent, exact)
        if op == "triv":
            if has_product(a.rep) or rng.random() < 0.5:
                return None
            return Val(obs.call("create_trivial", a.rep.create_trivial), dtriv(a.D), a.group, 0, exact)
        raise ValueError(op)


# ---------------------------------------------------------------------------------------------
# C45: copies
# ---------------------------------------------------------------------------------------------

WAYS = ["copy", "deepcopy", "pickle", "pickle2"]


def clone(x, way):
    if way == "copy":
        return copy.copy(x)
    if way == "deepcopy":
        return copy.deepcopy(x)
    return pickle.loads(pickle.dumps(x, protocol=2 if way == "pickle2" else pickle.HIGHEST_PROTOCOL))


@prop("C45", "Representations of all kinds copied (copy, deepcopy, pickle) before or after their generators were "
      "computed; labels compared, hashed and used with the originals.")
class Copies:
    @staticmethod
    def gen(rng, tier):
        n = 12 if tier == "thorough" else 3
        out = []
        for g in GS:
            for k in specs.ALL_KINDS:
                for way in WAYS:
                    for _ in range(n if k == "tab" else 1):
                        out.append({"g": g, "way": way, "kind": k, "used": int(rng.integers(2)),
                                    "r": specs.rand_rep(rng, g, k, 7)})
        for g in ["SU5", "SU6"]:
            for way in WAYS:
                for used in range(2):
                    out.append({"g": g, "way": way, "kind": "tab", "used": used,
                                "r": specs.tab(g, *specs.pick(rng, [l for l in specs.small_labels(g, 6, 1)]))})
        for _ in range(10 * n):
            rs = [specs.rand_tab(rng, specs.pick(rng, GS), 4) for _ in range(2)]
            out.append({"g": "gp", "way": specs.pick(rng, WAYS), "kind": "gp",
                        "used": int(rng.integers(2)), "r": {"k": "gp", "r": rs}})
        return out

    @staticmethod
    def run(case, obs):
        r, D = specs.build(case["r"]), specs.dense(case["r"])
        way, k = case["way"], case["kind"]
        what = f"{way} of {specs.describe(case['r'])}"
        if case["used"]:
            compare(obs, r, D, what)
        try:
            c = clone(r, way)
        except Exception as e:
            raise core.Violation(f"{what}: raised {e!r}")
        obs.equal(type(c), type(r), f"{what}: type")
        compare(obs, c, D, what)
        compare(obs, r, D, f"original after {what}")
        if k in ("tab", "gp"):
            obs.equal(repr(c), repr(r), f"{what}: text")
            obs.check(c == r and not c != r and hash(c) == hash(r), f"{what}: equal and same hash")
            obs.check(not c < r and not r < c, f"{what}: neither is smaller")
            obs.equal(len({c, r}), 1, f"{what}: one element of a set")
        t1 = obs.call("tensor_product", lie.tensor_product, c, r) if specs.dim(case["r"]) <= 6 else None
        if t1 is not None:
            compare(obs, t1, specs.kron_dense(D, D), f"{what} times the original")
        if k == "tab":
            p = sorted(map(repr, obs.call("mul", lambda: list(c * r))))
            obs.equal(p, sorted(map(repr, r * r)), f"{what}: selection rule")
            third = next(iter(r * r))
            obs.close(obs.call("clebsch_gordan", lie.clebsch_gordan, c, r, third),
                      lie.clebsch_gordan(r, r, third), f"{what}: Clebsch-Gordan coefficients", 1e-9)
        if k in ("mul", "tab"):
            obs.check(lie.MulIrrep(2, c) == lie.MulIrrep(2, r), f"{what}: equal multiples") \
                if k == "tab" else obs.check(c == r, f"{what}: equal multiples")
        # the copy is independent: change of the copy's arrays does not reach the original
        if way != "copy":
            for x in core.arrays_of(c):
                if x.flags.writeable and x.size:
                    x += 1
            compare(obs, r, D, f"original after modification of the {way}")
        obs.feature(case["g"], k, way, case["used"])


# ---------------------------------------------------------------------------------------------
# C46: refusals
# ---------------------------------------------------------------------------------------------


@prop("C46", "Operations between representations of different groups or different structure constants, wrong shapes of "
      "bases, and invalid labels: every such call has to end with an exception.", min_checks=1)
class Refusals:
    @staticmethod
    def gen(rng, tier):
        n = 60 if tier == "thorough" else 15
        out = []
        diff = [("SU2", "SL2C"), ("SU2", "SU3"), ("SO3", "SO13"), ("SU3", "SU4"), ("SU2_", "SU3"), ("SO3", "Z2"),
                ("O3", "Z2"), ("SU2", "SU3"), ("SL2C", "SU2Real"), ("O3", "SO3"), ("O3", "SU2"),
                ("Z2", "SU2"), ("SU4", "SO3")]
        for g1, g2 in diff:
            for op in ("tp", "ds", "from_irreps", "icb", "gcg", "triplet"):
                if op == "from_irreps" and {g1, g2} in ({"O3", "SO3"}, {"O3", "SU2"}):
                    continue  # the number of discrete generators is not checked there
                for _ in range(max(1, n // 8)):
                    ks = [specs.pick(rng, specs.KINDS) for _ in range(2)]
                    if op in ("icb", "gcg", "triplet"):
                        ks = ["gen", "gen"]
                    rs = [specs.rand_rep(rng, g, k, {"SU4": 4}.get(g, 5)) for g, k in zip((g1, g2), ks)]
                    if rng.random() < 0.5:
                        rs = rs[::-1]
                    out.append({"op": op, "r": rs, "g": g1 + g2})
        for g in GS:
            if g == "Z2":
                continue
            for op in ("tp", "ds", "from_irreps"):
                for _ in range(max(1, n // 5)):
                    # the same group, with another basis of the algebra
                    rs = [specs.rand_rep(rng, g, specs.pick(rng, specs.KINDS), 4) for _ in range(2)]
                    out.append({"op": op + "-ca", "r": rs, "g": g, "s": int(rng.integers(10**6)),
                                "side": int(rng.integers(2))})
        for g in ("SU2", "SO3", "O3", "SU2Real", "Z2"):
            for h in GS:
                if h != g:
                    out.append({"op": "mul", "r": [specs.rand_tab(rng, g, 5), specs.rand_tab(rng, h, 5)],
                                "g": g + h})
        for g in GS:
            for _ in range(n // 3):
                r = specs.rand_red(rng, g, 5, q="no")
                out.append({"op": "badQ", "r": [r], "g": g, "s": int(rng.integers(1, 4))})
                ms = [int(x) for x in rng.integers(1, 4, size=3)]
                ms[int(rng.integers(3))] = -int(rng.integers(1, 3))
                out.append({"op": "negative", "g": g, "ms": ms, "how": int(rng.integers(4)),
                            "ls": [specs.pick(rng, specs.small_labels(g, 5)) for _ in ms],
                            "q": specs.rand_q(rng)})
        for b in BAD_LABELS:
            out.append({"op": "label", "g": b[0], "l": b[1]})
        return out

    @staticmethod
    def run(case, obs):
        op = case["op"]
        obs.feature(op, case["g"])
        if op == "label":
            c = specs.SUN if case["g"] == "SUN" else getattr(lie.irreps, case["g"])
            l = case["l"]
            obs.raises(f"{case['g']}({l})", lambda: c(tuple(l)) if case["g"] == "SUN" else c(*[tuple(x) if isinstance(x, list) else x for x in l]))
            return
        if op == "negative":
            G = specs.GROUPS[case["g"]]
            rs = [G.make(l) for l in case["ls"]]
            Q = specs.basis(case["q"], max(1, sum(m * r.dim for m, r in zip(case["ms"], rs))))
            what = f"multiplicities {case['ms']} of {rs}"
            how = case["how"]
            if how == 0:
                obs.raises(what, lie.ReducedRep.from_irreps, list(zip(case["ms"], rs)), Q)
            elif how == 1:
                obs.raises(what, lie.ReducedRep.from_irreps, list(zip(case["ms"], rs)))
            elif how == 2:
                obs.raises(what, lambda: lie.ReducedRep.from_irreps(
                    [lie.MulIrrep(m, r) for m, r in zip(case["ms"], rs)], Q))
            else:
                obs.raises(what, lambda: lie.ReducedRep.from_irreps(
                    [lie.MulIrrep(m, r) for m, r in zip(case["ms"], rs)]))
            return
        rs = [specs.build(r) for r in case["r"]]
        if op.endswith("-ca"):
            A = np.array(rs[0].algebra())
            rng = np.random.default_rng(case["s"])
            Q = specs.basis(specs.rand_q(rng, ["diag", "real", "orth"]), len(A))
            iQ = np.linalg.inv(Q)
            if np.allclose(np.einsum("ia,jb,abc,ck->ijk", Q, Q, A, iQ), A, atol=1e-2):
                raise Skip("an automorphism of the algebra")
            i = case["side"]
            rs[i] = obs.call("change_algebra", lie.change_algebra, rs[i], Q)
            op = op[:-3]
        what = f"{op} of {' and '.join(map(specs.describe, case['r']))}"
        if op == "tp":
            obs.raises(what, lie.tensor_product, *rs)
        elif op == "ds":
            obs.raises(what, lie.direct_sum, *rs)
        elif op == "from_irreps":
            obs.raises(what, lie.ReducedRep.from_irreps, rs)
        elif op == "icb":
            obs.raises(what, lie.infer_change_of_basis, *rs)
        elif op == "gcg":
            obs.raises(what, lie.clebsch_gordan, rs[0], rs[1], rs[0])
        elif op == "triplet":
            obs.raises(what, lie.check_representation_triplet, rs[0], rs[1], rs[0])
        elif op == "mul":
            obs.raises(what, lambda: list(rs[0] * rs[1]))
        elif op == "badQ":
            d = rs[0].dim + case["s"]
            obs.raises(what, lie.ReducedRep.from_irreps, rs[0].irreps, np.eye(d))


# the labels that the constructors refuse (the others do not look at what they are given)
BAD_LABELS = [
    ("SU2", [-1]), ("SU2", [-2]), ("SU2", [0.5]), ("SU2", [-5]),
    ("SL2C", [-1, 0]), ("SL2C", [0, -1]), ("SL2C", [0.5, 0]),
    ("SO13", [1, 0]), ("SO13", [0, 1]), ("SO13", [2, 1]), ("SO13", [-1, 1]), ("SO13", [1, -1]),
    ("SU2Real", [-1]), ("SU2Real", [0.3]), ("SU2Real", [-0.5]),
    ("SUN", [1, 1]), ("SUN", [0, 1, 0]), ("SUN", [2, 1]), ("SUN", [1, 2, 0]), ("SUN", []), ("SUN", [3, 1, 2, 0]),
    ("SU2_", [[1, 0, 0]]), ("SU2_", [[0]]), ("SU3", [[1, 0]]), ("SU3", [[1, 0, 0, 0]]), ("SU4", [[1, 0, 0]]),
]
