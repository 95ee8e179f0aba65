"""A catalogue of operations of the library, described by JSON values, for the properties that are
about histories of calls rather than about one call (C38-C41).

``rand_op(rng)`` draws a description, ``prepare(op)`` makes the inputs (arrays, representations),
``perform(op, inputs, call)`` makes the calls of the library and returns a nested list of arrays, numbers
and strings that does not alias anything the caller could modify (unless ``alias=True``)."""
import numpy as np

import lie_nn as lie
from lie_nn import util

from . import orc, specs
from .specs import GROUPS

GS = ["SU2", "SO3", "O3", "SL2C", "SO13", "Z2", "SU3", "SU4", "SU2_", "SU2Real"]
MD = {"SU4": 4, "SO13": 4, "SU3": 6, "Z2": 3}


def _mat(rng, kind, m, n, cplx):
    s = int(rng.integers(10**6))
    return [kind, m, n, bool(cplx), s]


def mat(d):
    kind, m, n, cplx, s = d
    rng = np.random.default_rng([311, s])
    if kind == "int":
        a = rng.integers(-2, 3, size=(m, n)).astype(float)
        return a + 1j * rng.integers(-2, 3, size=(m, n)) if cplx else a
    r = max(1, min(m, n) - int(rng.integers(0, 2)))
    q1 = specs._haar(rng, m, cplx)[:, :r]
    q2 = specs._haar(rng, n, cplx)[:r]
    return (q1 * rng.uniform(0.7, 1.5, size=r)) @ q2


NAMES = ["gens", "cg", "tp", "ds", "cb", "ca", "conj", "gp", "reduce", "icb", "gcg", "rtp", "sym",
         "real", "irr", "null", "gs", "ext", "cap", "uniq", "round", "lim", "alg", "bd", "regular",
         "iter", "rule", "str", "exp", "sn", "decompose", "pow", "triv", "seqnull"]
HEAVY = ("rtp", "sym", "pow")


def rand_op(rng, names=NAMES):
    k = specs.pick(rng, names)
    g = specs.pick(rng, GS)
    md = MD.get(g, 6)
    op = {"op": k}
    if k in ("gens", "cb", "ca", "conj", "irr", "exp", "triv"):
        op["r"] = specs.rand_rep(rng, g, specs.pick(rng, specs.KINDS), md)
        op["s"] = int(rng.integers(10**6))
        if k in ("cb", "ca"):
            op["q"] = specs.rand_q(rng)
    elif k == "cg":
        a, b = (specs.rand_tab(rng, g, {"SU4": 4, "SO13": 4}.get(g, 6)) for _ in range(2))
        op.update(g=g, l=[a["l"], b["l"], list(specs.pick(rng, sorted(orc.product(g, a["l"], b["l"]))))])
    elif k in ("tp", "ds"):
        op["r"] = [specs.rand_rep(rng, g, specs.pick(rng, specs.KINDS), md) for _ in range(2)]
    elif k == "gp":
        gs = [g, specs.pick(rng, GS)]
        op["r"] = [specs.rand_rep(rng, x, specs.pick(rng, specs.KINDS), 4) for x in gs]
    elif k == "reduce":
        op["r"] = {"k": "gen", "r": specs.rand_red(rng, g, min(md, 6)), "q": None}
        if rng.random() < 0.3:
            op["r"]["r"] = specs.rand_semi(rng, 6)
        op["s"] = int(rng.integers(10**6))
    elif k == "icb":
        a = specs.rand_red(rng, g, min(md, 6))
        op["r"] = [a, {"k": "red", "t": a["t"], "q": specs.rand_q(rng)}]
    elif k == "gcg":
        a, b = (specs.rand_tab(rng, g, 3) for _ in range(2))
        c = specs.pick(rng, sorted(orc.product(g, a["l"], b["l"])))
        op["r"] = [{"k": "gen", "r": a, "q": specs.rand_q(rng)},
                   {"k": "gen", "r": b, "q": specs.rand_q(rng)},
                   {"k": "gen", "r": specs.tab(g, *c), "q": None}]
    elif k == "rtp":
        g = specs.pick(rng, ["SU2", "SO3", "O3", "Z2", "SU3", "SL2C"])
        op["f"] = specs.pick(rng, ["ij=ji", "ij=-ji", "ij", "ijk=jik", "ijk=jki", "ijk=-ikj"])
        op["r"] = {"k": "red", "t": [[1, specs.rand_tab(rng, g, 3)], [1, specs.tab(g, *triv(g))]],
                   "q": specs.rand_q(rng, specs.UNITARY) if rng.random() < 0.4 else None}
    elif k == "sym":
        g = specs.pick(rng, ["SU2", "SO3", "O3", "Z2", "SU3"])
        op["r"] = specs.rand_tab(rng, g, 3)
        op["n"] = int(rng.integers(1, 4))
    elif k == "pow":
        op["r"] = specs.rand_tab(rng, g, 3)
        op["n"] = int(rng.integers(0, 4))
    elif k == "real":
        g = specs.pick(rng, ["SU2", "SO3", "O3", "SO13"])
        op["r"] = {"k": "gen", "r": specs.rand_tab(rng, g, 5),
                   "q": specs.rand_q(rng, ["orth", "perm", "unit"])}
    elif k in ("null", "gs", "ext", "seqnull"):
        op["m"] = _mat(rng, specs.pick(rng, ["rank", "int"]), int(rng.integers(1, 7)),
                       int(rng.integers(2, 8)), rng.integers(2))
    elif k == "cap":
        op["shape"] = specs.pick(rng, [[6], [2, 3], [3, 2], [1, 3, 2]])
        op["s"] = int(rng.integers(10**6))
    elif k in ("uniq", "round", "lim"):
        op["s"] = int(rng.integers(10**6))
        op["n"] = int(rng.integers(1, 12))
    elif k == "alg":
        g = specs.pick(rng, ["SU2", "SO3", "SU3", "SL2C", "SU2_"])
        ls = [l for l in specs.small_labels(g, 6, 3) if GROUPS[g].dim(l) > 1]
        if g == "SL2C":
            ls = [l for l in ls if min(l) > 0]
        op["r"] = specs.tab(g, *specs.pick(rng, ls))
        op["q"] = specs.rand_q(rng, ["orth", "real"])
    elif k == "bd":
        op["m"] = [_mat(rng, "rank", int(rng.integers(1, 4)), int(rng.integers(1, 4)),
                        rng.integers(2)) for _ in range(int(rng.integers(1, 4)))]
    elif k == "regular":
        op["n"] = int(rng.integers(1, 7))
    elif k in ("iter", "str"):
        op["g"] = specs.pick(rng, GS)
        op["n"] = int(rng.integers(1, 8))
        op["l"] = specs.rand_tab(rng, op["g"], 8)["l"]
    elif k == "rule":
        a, b = (specs.rand_tab(rng, g, 10) for _ in range(2))
        op["r"] = [a, b]
    elif k == "sn":
        op["r"] = {"k": "sn", "t": specs.pick(rng, ["nat", "std", "tri"]), "n": int(rng.integers(2, 6))}
    elif k == "decompose":
        g = specs.pick(rng, ["SU2", "SO3", "O3", "SU3"])
        op["r"] = specs.rand_red(rng, g, 6, kinds=specs.UNITARY)
        if rng.random() < 0.3:
            op["r"] = {"k": "gen", "r": specs.rand_semi(rng, 6, specs.UNITARY), "q": None}
        op["s"] = int(rng.integers(10**6))
    return op


def triv(g):
    return {"SU2": [0], "SO3": [0], "O3": [0, 1], "Z2": [1], "SU3": [0, 0, 0], "SL2C": [0, 0]}[g]


def prepare(op):
    """inputs, made without any library call except the constructors"""
    k = op["op"]
    out = {}
    if "r" in op:
        out["r"] = [specs.build(r) for r in op["r"]] if isinstance(op["r"], list) else \
            specs.build(op["r"])
    if k == "cg":
        out["r"] = [GROUPS[op["g"]].make(l) for l in op["l"]]
    if k == "cb":
        out["q"] = specs.basis(op["q"], specs.dim(op["r"]))
    if k == "ca":
        A = np.array(out["r"].algebra())
        out["q"] = specs.basis(op["q"], len(A)) if len(A) else np.zeros((0, 0))
    if k == "exp":
        rng = np.random.default_rng(op["s"])
        n, h = len(out["r"].algebra()), len(out["r"].discrete_generators())
        out["p"] = (rng.normal(size=n), rng.integers(0, 4, size=h))
    if k in ("null", "gs", "ext", "seqnull"):
        out["m"] = mat(op["m"])
    if k == "cap":
        rng = np.random.default_rng(op["s"])
        a = specs._haar(rng, 6, False)
        mix = [specs._haar(rng, 3, False) for _ in range(2)]
        sh = [3] + op["shape"]
        out["m"] = ((mix[0] @ a[:3]).reshape(sh), (mix[1] @ a[[0, 1, 4]]).reshape(sh))
    if k == "uniq":
        rng = np.random.default_rng(op["s"])
        c = rng.permutation(6)[:3].astype(float)
        out["m"] = c[rng.integers(3, size=op["n"])] + 1e-9 * rng.normal(size=op["n"])
    if k == "round":
        rng = np.random.default_rng(op["s"])
        out["m"] = np.sqrt(rng.integers(0, 20, size=op["n"]) / rng.integers(1, 40, size=op["n"]))
    if k == "lim":
        rng = np.random.default_rng(op["s"])
        out["m"] = (rng.integers(1, 10**6, size=op["n"]), rng.integers(1, 10**6, size=op["n"]))
        g = np.gcd(*out["m"])
        out["m"] = (out["m"][0] // g, out["m"][1] // g)
    if k == "alg":
        X = specs.raw(out["r"])[1]
        Q = specs.basis(op["q"], len(X))
        out["m"] = np.einsum("ij,jkl->ikl", Q, X)
    if k == "bd":
        out["m"] = [mat(x) for x in op["m"]]
    if k == "regular":
        n = op["n"]
        out["m"] = (np.arange(n)[:, None] + np.arange(n)[None]) % n
    if k == "decompose":
        A, X, H = specs.raw(out["r"])
        out["m"] = np.concatenate([X, H])
    return out


def _plain(name, fn, *args, **kw):
    return fn(*args, **kw)


def perform(op, inp, call=_plain):
    k = op["op"]
    r = inp.get("r")
    m = inp.get("m")

    def full(x):
        q = getattr(x, "Q", None)
        out = [x.algebra(), call("continuous_generators", x.continuous_generators),
               call("discrete_generators", x.discrete_generators), int(x.dim)]
        if isinstance(x, lie.ReducedRep):
            out += [repr([repr(i) for i in x.irreps if isinstance(i.rep, lie.TabulatedIrrep)])]
            out += [] if q is None else [q]
        return out

    if k in ("gens", "sn"):
        return full(r)
    if k == "cg":
        return [call("clebsch_gordan", lie.clebsch_gordan, *r)]
    if k == "tp":
        return full(call("tensor_product", lie.tensor_product, *r))
    if k == "ds":
        return full(call("direct_sum", lie.direct_sum, *r))
    if k == "cb":
        return full(call("change_basis", lie.change_basis, r, inp["q"]))
    if k == "ca":
        return full(call("change_algebra", lie.change_algebra, r, inp["q"]))
    if k == "conj":
        return full(call("conjugate", lie.conjugate, r))
    if k == "gp":
        return full(call("group_product", lie.group_product, *r))
    if k == "pow":
        return full(call("tensor_power", lie.tensor_power, r, op["n"]))
    if k == "triv":
        t = call("create_trivial", r.create_trivial)
        return full(t) + [bool(t.is_trivial()), bool(r.is_trivial())]
    if k == "reduce":
        np.random.seed(op["s"])
        out = call("reduce", lie.reduce, r)
        return full(out) + [sorted(int(i.rep.dim) for i in out.irreps)]
    if k == "icb":
        return [call("infer_change_of_basis", lie.infer_change_of_basis, *r)]
    if k == "gcg":
        return [call("clebsch_gordan", lie.clebsch_gordan, *r)]
    if k == "rtp":
        out = call("reduced_tensor_product_basis", lie.reduced_tensor_product_basis, op["f"],
                   **{c: r for c in dict.fromkeys(op["f"].split("=")[0])})
        return [out.array, list(out.list), repr(out.rep)]
    if k == "sym":
        out = call("reduced_symmetric_tensor_product_basis",
                   lie.reduced_symmetric_tensor_product_basis, r, op["n"])
        return [out.array, list(out.list), repr(out.rep)]
    if k == "real":
        ok = call("is_real", lie.is_real, r)
        out = [bool(ok)]
        if ok:
            out += full(call("make_explicitly_real", lie.make_explicitly_real, r))
        return out
    if k == "irr":
        return [bool(call("is_irreducible", lie.is_irreducible, r)),
                bool(call("is_unitary", lie.is_unitary, r))]
    if k == "null":
        return [call("nullspace", util.nullspace, m)]
    if k == "seqnull":
        n = m.shape[1] - np.linalg.matrix_rank(m, 1e-6)
        return [call("sequential_nullspace", util.sequential_nullspace, [m], n)]
    if k == "gs":
        return [call("gram_schmidt", util.gram_schmidt, m)]
    if k == "ext":
        return [call("extend_basis", util.extend_basis, m),
                call("extend_basis", util.extend_basis, m, returns="E")]
    if k == "cap":
        return list(call("basis_intersection", util.basis_intersection, *m))
    if k == "uniq":
        return list(call("unique_with_tol", util.unique_with_tol, m, tol=1e-3))
    if k == "round":
        return [call("round_to_sqrt_rational", util.round_to_sqrt_rational, m)]
    if k == "lim":
        return list(call("limit_denominator", util.limit_denominator, *m, 1000))
    if k == "alg":
        A = call("infer_algebra_from_generators", util.infer_algebra_from_generators, m)
        return [A, bool(call("check_algebra_vs_generators", util.check_algebra_vs_generators, A, m))]
    if k == "bd":
        return [call("block_diagonal", util.block_diagonal, [x[None] for x in m]),
                call("direct_sum", util.direct_sum, *m), call("kron", util.kron, *m)]
    if k == "regular":
        return [call("regular_representation", util.regular_representation, m)]
    if k == "iter":
        it = call("iterator", GROUPS[op["g"]].cls.iterator)
        return [repr([next(it) for _ in range(1 if op["g"] == "Z2" else op["n"])])]
    if k == "str":
        G = GROUPS[op["g"]]
        x = G.make(op["l"])
        out = [repr(x), int(x.dim), hash(x) == hash(G.make(op["l"]))]
        if G.fmt and op["g"] != "SL2C" and op["g"] != "SO13":
            out.append(repr(call("from_string", G.cls.from_string, G.fmt(op["l"]))))
        return out
    if k == "rule":
        return [repr(sorted(repr(x) for x in r[0] * r[1]))]
    if k == "exp":
        return [call("exp_map", r.exp_map, *inp["p"])]
    if k == "decompose":
        np.random.seed(op["s"])
        Ys = call("decompose_rep_into_irreps", util.decompose_rep_into_irreps, m)
        return [sorted(len(y[0]) for y in Ys)] + list(Ys)
    raise ValueError(k)


def freeze(x):
    """deep copy of a nested result"""
    if isinstance(x, np.ndarray):
        return np.array(x)
    if isinstance(x, (list, tuple)):
        return [freeze(y) for y in x]
    return x


def arrays(x):
    if isinstance(x, np.ndarray):
        yield x
    elif isinstance(x, (list, tuple)):
        for y in x:
            yield from arrays(y)


def compare(obs, a, b, what, tol=1e-9, path=""):
    if isinstance(b, np.ndarray):
        obs.close(a, b, f"{what}{path}", tol)
    elif isinstance(b, (list, tuple)):
        obs.check(isinstance(a, (list, tuple)), f"{what}{path}: structure")
        obs.equal(len(a), len(b), f"{what}{path}: length")
        for i, (x, y) in enumerate(zip(a, b)):
            compare(obs, x, y, what, tol, f"{path}[{i}]")
    else:
        obs.equal(a, b, f"{what}{path}")
