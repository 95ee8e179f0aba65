"""C20-C23: finding intertwiners, reality and decompositions of given representations."""
import numpy as np

import lie_nn as lie
from lie_nn import util

from . import orc, specs
from .core import Skip
from .p_reps import GS, compare, content, small_tab
from .props import prop
from .specs import GROUPS


def yy(D):
    """all the generators of (A, X, H)"""
    d = (D[1] if len(D[1]) else D[2]).shape[-1]
    return np.concatenate([D[1].reshape(-1, d, d), D[2].reshape(-1, d, d)])


def common(m1, m2):
    return sum(m * m2.get(l, 0) for l, m in m1.items())


def mults(terms):
    out = {}
    for m, r in terms:
        if not m:
            continue
        out[tuple(r["l"])] = out.get(tuple(r["l"]), 0) + m
    return out


def wrap(rng, red, kinds=("red", "gen", "user")):
    k = specs.pick(rng, list(kinds))
    return red if k == "red" else {"k": k, "r": red, "q": None}


@prop("C20", "Pairs of sums of irreps of the 10 groups sharing zero, one or several irreps with "
      "multiplicities, in seeded well conditioned bases, wrapped as reduced, generic or user-defined; "
      "the dimension of the solution space is the combinatorial sum of m1*m2 over the irreps.")
class InferChangeOfBasis:
    @staticmethod
    def gen(rng, tier):
        n = 90 if tier == "thorough" else 18
        out = []
        for g in GS:
            md = {"SU4": 6, "SO13": 6, "SU3": 7, "Z2": 4}.get(g, 7)
            for i in range(n):
                a = specs.rand_red(rng, g, md, q="no")
                mode = ["same", "perm", "share", "random", "irrep", "same"][i % 6]
                if mode == "same":
                    b = {"k": "red", "t": a["t"]}
                elif mode == "perm":
                    b = {"k": "red", "t": [a["t"][j] for j in rng.permutation(len(a["t"]))]}
                elif mode == "share":
                    b = {"k": "red", "t": specs.rand_red(rng, g, 3, q="no", maxterms=2)["t"]
                         + [[1, a["t"][0][1]]]}
                elif mode == "irrep":
                    b = {"k": "red", "t": [[1, a["t"][-1][1]]]}
                else:
                    b = specs.rand_red(rng, g, md, q="no")
                # unitary bases or general ones
                kinds = specs.UNITARY if i % 3 == 0 else specs.QKINDS
                qa = specs.rand_q(rng, kinds) if rng.random() < 0.8 else None
                qb = specs.rand_q(rng, kinds) if rng.random() < 0.8 else None
                a, b = dict(a, q=qa), dict(b, q=qb)
                out.append({"g": g, "a": wrap(rng, a), "b": wrap(rng, b), "ta": a["t"],
                            "tb": b["t"], "mode": mode, "unit": kinds == specs.UNITARY,
                            "cost": (specs.dim(a) * specs.dim(b)) ** 2})
        for _ in range(3 * n // 6):
            # finite groups: natural = trivial + standard
            m = int(rng.integers(2, 5))
            ta, tb = (specs.pick(rng, ["nat", "std", "tri"]) for _ in range(2))
            out.append({"g": "Sn", "a": {"k": "gen", "q": specs.rand_q(rng),
                                         "r": {"k": "sn", "t": ta, "n": m}},
                        "b": {"k": "sn", "t": tb, "n": m},
                        "want": {("nat", "nat"): 2, ("std", "tri"): 0,
                                 ("tri", "std"): 0}.get((ta, tb), 1) if m > 2 or 1 else 0,
                        "mode": "Sn", "unit": False})
        for i in range(2 * n):
            # groups whose discrete part acts on the continuous one, tori, finite abelian groups
            a = specs.rand_semi(rng, 6)
            b = {"k": "red", "t": [a["t"][j] for j in rng.permutation(len(a["t"]))],
                 "q": specs.rand_q(rng)}
            if i % 2:
                b["t"] = b["t"][:1]
            out.append({"g": "semi", "a": wrap(rng, a, ("gen", "user")), "want": "hom",
                        "b": wrap(rng, b, ("gen", "user")), "mode": "Sn" if i % 2 else "perm",
                        "unit": False, "cost": (specs.dim(a) * specs.dim(b)) ** 2})
        return out

    @staticmethod
    def run(case, obs):
        a, b = specs.build(case["a"]), specs.build(case["b"])
        Y1, Y2 = yy(specs.dense(case["a"])), yy(specs.dense(case["b"]))
        d1, d2 = Y1.shape[1], Y2.shape[1]
        n = case["want"] if "want" in case else common(mults(case["ta"]), mults(case["tb"]))
        n = orc.hom_dim(Y1, Y2, 1e-5)[0] if n == "hom" else n
        what = f"infer_change_of_basis({specs.describe(case['a'])}, {specs.describe(case['b'])})"
        S = obs.call("infer_change_of_basis", lie.infer_change_of_basis, a, b)
        obs.equal(S.shape, (n, d2, d1), f"{what}: number of solutions")
        obs.close(np.einsum("aij,bjk->baik", Y2, S), np.einsum("bij,ajk->baik", S, Y1),
                  f"{what}: Q rho1 = rho2 Q", 1e-6)
        F = S.reshape(n, d1 * d2)
        obs.close(F @ F.conj().T, d2 * np.eye(n), f"{what}: independent normalised solutions", 1e-8)
        if case["mode"] in ("same", "perm"):
            rng = np.random.default_rng(7)
            M = np.einsum("a,aij->ij", rng.normal(size=n), S)
            obs.check(np.linalg.cond(M) < 1e6, f"{what}: equivalent, no invertible solution")
            obs.close(specs.conj_by(M, Y1), Y2, f"{what}: maps one onto the other", 1e-5)
        if n == 1 and case["unit"] and d1 == d2 and case["mode"] in ("same", "perm"):
            obs.close(S[0] @ S[0].conj().T, np.eye(d1), f"{what}: unitary", 1e-7)
        # the matrix level function, on the same input, in the transposed convention
        T = obs.call("util.infer_change_of_basis", util.infer_change_of_basis,
                     Y2.astype(np.result_type(Y1, Y2)), Y1.astype(np.result_type(Y1, Y2)))
        obs.equal(T.shape, (n, d2, d1), f"util.{what}")
        obs.close(np.einsum("aij,bjk->baik", Y2, T), np.einsum("bij,ajk->baik", T, Y1),
                  f"util.{what}: X1 S = S X2", 1e-6)
        obs.feature(case["g"], case["mode"], min(n, 6), case["a"]["k"], case["b"]["k"])


@prop("C21", "Sums of irreps with multiplicities, in seeded well conditioned bases, wrapped as generic, "
      "user-defined, tabulated, multiple or reduced; products of two groups; finite groups.")
class Reduce:
    @staticmethod
    def gen(rng, tier):
        n = 100 if tier == "thorough" else 20
        out = []
        for g in GS:
            md = {"SU4": 6, "SO13": 7, "SU3": 8, "Z2": 5}.get(g, 10)
            for i in range(n):
                a = specs.rand_red(rng, g, md, q="maybe")
                mode = ["gen", "user", "gen", "red", "gen", "tab", "mul", "tp"][i % 8]
                if mode in ("gen", "user"):
                    r = {"k": mode, "r": a, "q": None}
                elif mode == "red":
                    r = a
                elif mode == "tab":
                    r = specs.rand_tab(rng, g, md)
                elif mode == "mul":
                    r = specs.rand_rep(rng, g, "mul", md)
                else:
                    r = {"a": specs.rand_tab(rng, g, 3), "b": specs.rand_tab(rng, g, 3),
                         "k": "tp"}
                out.append({"g": g, "r": r, "mode": mode, "s": int(rng.integers(10**6))})
        for _ in range(n):
            a, b = small_tab(rng, 3), small_tab(rng, 3)
            if specs.is_half(a["g"], a["l"]) or specs.is_half(b["g"], b["l"]):
                continue
            if "SU4" in (a["g"], b["g"]):
                continue
            out.append({"g": "gp", "mode": "gp", "s": int(rng.integers(10**6)),
                        "r": {"k": "gen", "q": specs.rand_q(rng, specs.UNITARY),
                              "r": {"k": "gp", "r": [a, b]}}})
        for m in (2, 3, 4, 5):
            for t in ("nat", "std", "tri"):
                out.append({"g": "Sn", "mode": "sn" + t, "s": 0,
                            "r": {"k": "gen", "q": specs.rand_q(rng),
                                  "r": {"k": "sn", "t": t, "n": m}}})
        for _ in range(2 * n):
            out.append({"g": "semi", "mode": "semi", "s": 0,
                        "r": wrap(rng, specs.rand_semi(rng, 8), ("gen", "user"))})
        return out

    @staticmethod
    def run(case, obs):
        s = case["r"]
        if s["k"] == "tp":
            D = specs.kron_dense(specs.dense(s["a"]), specs.dense(s["b"]))
            r = lie.GenericRep(*D)
            what = f"reduce({specs.describe(s['a'])} x {specs.describe(s['b'])})"
            want = {}
            for l, m in orc.product(case["g"], s["a"]["l"], s["b"]["l"]).items():
                d = GROUPS[case["g"]].dim(list(l))
                want[d] = want.get(d, 0) + m
        else:
            D, r = specs.dense(s), specs.build(s)
            what = f"reduce({specs.describe(s)})"
            want = dims_of(s)
        out = obs.call("reduce", lie.reduce, r)
        obs.check(isinstance(out, lie.ReducedRep), f"{what}: a ReducedRep")
        compare(obs, out, D, f"{what}: same representation", 1e-6)
        got = {}
        for m, x in content(out):
            got[int(x.dim)] = got.get(int(x.dim), 0) + m
            if not isinstance(x, lie.TabulatedIrrep):
                obs.close(np.array(x.A), D[0], f"{what}: algebra of the pieces", 1e-9)
                c, gap = orc.hom_dim(yy(specs.raw(x)), yy(specs.raw(x)), 1e-5)
                obs.equal(c, 1, f"{what}: a piece of dimension {x.dim} is irreducible (commutant)")
        obs.equal({d: m for d, m in got.items() if m}, want, f"{what}: dimensions of the pieces")
        obs.feature(case["g"], case["mode"], sum(want.values()))


def dims_of(s):
    k = s["k"]
    if k == "tab":
        return {specs.dim(s): 1}
    if k == "mul":
        return {d: s["m"] * m for d, m in dims_of(s["r"]).items()}
    if k == "red":
        out = {}
        for m, r in s["t"]:
            for d, x in dims_of(r).items() if m else ():
                out[d] = out.get(d, 0) + m * x
        return out
    if k == "tor":
        return {1: 1}
    if k == "ext":  # irreducible, or two inequivalent irreps of half the dimension
        Y = yy(specs.dense(s))
        n = orc.hom_dim(Y, Y, 1e-5)[0]
        return {specs.dim(s) // n: n}
    if k in ("gen", "user"):
        return dims_of(s["r"])
    if k == "gp":
        return {specs.dim(s): 1}
    if k == "sn":
        n = s["n"]
        return {"nat": ({1: 1, n - 1: 1} if n > 2 else {1: 2}), "std": {n - 1: 1},
                "tri": {1: 1}}[s["t"]]


# ---------------------------------------------------------------------------------------------


def frobenius(g, l):
    """1 real, -1 pseudoreal, 0 complex: from the labels"""
    if g in ("SO3", "O3", "Z2"):
        return 1
    if g == "SU2":
        return 1 if l[0] % 2 == 0 else -1
    if g == "SU2Real":
        return 1
    if g == "SL2C":
        return 1 if (l[0] + l[1]) % 2 == 0 else -1
    if g == "SO13":
        return 1 if l[0] == l[1] else 0
    dual = [l[0] - x for x in reversed(l)]
    if dual != list(l):
        return 0
    if g == "SU2_":
        return 1 if l[0] % 2 == 0 else -1
    return 1  # self-conjugate irreps of SU(3) and SU(4) are real


def indicator(Y):
    """numerically: -1, 0, 1"""
    d = Y.shape[1]
    M = orc.hom_operator(Y, Y.conj())
    u, s, vh = np.linalg.svd(M)
    null = [v.conj() for v, x in zip(vh, list(s) + [0.0] * (len(vh) - len(s))) if x < 1e-7]
    if not null:
        return 0
    assert len(null) == 1
    S = null[0].reshape(d, d)
    t = np.trace(S @ S.conj())
    return 1 if t.real > 0 else -1


@prop("C22", "Irreps of the 10 groups (real, pseudoreal and complex ones), standard and finite-group "
      "irreps, products of two groups, in seeded bases; for make_explicitly_real unitary bases.")
class Reality:
    @staticmethod
    def gen(rng, tier):
        n = 60 if tier == "thorough" else 12
        out = []
        for g in GS:
            ls = [l for l in specs.small_labels(g, 15 if g not in ("SU4", "SO13") else 10, 5)
                  if not specs.is_half(g, l)]
            for i in range(n):
                l = ls[i] if i < len(ls) and i < n // 2 else specs.pick(rng, ls)
                q = None if i % 5 == 0 else specs.rand_q(rng, specs.UNITARY if i % 2 else
                                                         specs.QKINDS)
                t = [[1, specs.tab(g, *l)]]
                r = {"k": "red", "t": t, "q": q}
                k = specs.pick(rng, ["red", "gen", "user"])
                out.append({"g": g, "l": [l], "gs": [g], "unit": q is None or q[0] in specs.UNITARY,
                            "r": r if k == "red" else {"k": k, "r": r, "q": None},
                            "cost": specs.dim(r)})
        for _ in range(2 * n):
            gs = [specs.pick(rng, [g for g in GS if g != "SU4"]) for _ in range(2)]
            ts = [specs.rand_tab(rng, g, 4) for g in gs]
            q = specs.rand_q(rng, specs.UNITARY)
            out.append({"g": "gp", "gs": gs, "l": [t["l"] for t in ts], "unit": True,
                        "r": {"k": "gen", "q": q, "r": {"k": "gp", "r": ts}}})
        for i in range(2 * n):
            a = specs.rand_semi(rng, 4)["t"][0][1]
            if sum(dims_of(a).values()) > 1:
                continue
            q = specs.rand_q(rng, specs.UNITARY if i % 2 else specs.QKINDS)
            real = a["k"] == "ext" or not any(a.get("w", [0])) and \
                all(x % 6 == 0 for x in a.get("p", []))
            if a["k"] == "tab":
                continue
            out.append({"g": "semi", "gs": [], "l": [], "unit": q[0] in specs.UNITARY,
                        "fs": int(real), "r": {"k": specs.pick(rng, ["gen", "user"]), "q": q, "r": a}})
        return out

    @staticmethod
    def run(case, obs):
        r = specs.build(case["r"])
        D = specs.dense(case["r"])
        Y = yy(D)
        what = f"is_real({specs.describe(case['r'])})"
        fs = indicator(Y)
        if "fs" in case:
            obs.equal(fs, case["fs"], f"{what}: type of the irrep")
        else:
            obs.equal(fs, int(np.prod([frobenius(g, l) for g, l in zip(case["gs"], case["l"])])),
                      f"{what}: type of the irrep, from the labels")
        got = obs.call("is_real", lie.is_real, r)
        obs.equal(bool(got), fs == 1, what)
        what = f"make_explicitly_real({specs.describe(case['r'])})"
        if fs != 1:
            obs.raises("make_explicitly_real", lie.make_explicitly_real, r, exc=ValueError)
        elif case["unit"]:
            out = obs.call("make_explicitly_real", lie.make_explicitly_real, r)
            Z = yy(specs.raw(out))
            obs.close(np.asarray(out.A), D[0], f"{what}: same algebra", 1e-9)
            obs.zero(Z.imag, f"{what}: real generators", 1e-9)
            k, _ = orc.hom_dim(Y, Z, 1e-5)
            obs.equal(k, 1, f"{what}: equivalent to the original")
            n = len(D[0])
            obs.zero(Z[:n] + np.swapaxes(Z[:n], 1, 2).conj(), f"{what}: stays unitary", 1e-7) \
                if np.abs(Y[:n] + np.swapaxes(Y[:n], 1, 2).conj()).max(initial=0) < 1e-9 else None
        obs.feature(case["g"], fs, case["unit"], case["r"]["k"])


@prop("C23", "Generator arrays of sums of irreps with multiplicities, in seeded bases, for 10 groups and "
      "for finite groups.")
class Decompose:
    @staticmethod
    def gen(rng, tier):
        n = 110 if tier == "thorough" else 24
        out = []
        for g in GS:
            md = {"SU4": 6, "SO13": 7, "SU3": 8, "Z2": 5}.get(g, 10)
            for i in range(n):
                a = specs.rand_red(rng, g, md, q="maybe")
                if i % 3 == 0:
                    a = {"k": "red", "t": [[1, specs.rand_tab(rng, g, md)]],
                         "q": specs.rand_q(rng)}
                out.append({"g": g, "r": a})
        for m in (2, 3, 4, 5):
            for t in ("nat", "std", "tri"):
                for _ in range(max(1, n // 20)):
                    out.append({"g": "Sn", "r": {"k": "gen", "q": specs.rand_q(rng),
                                                 "r": {"k": "sn", "t": t, "n": m}}})
        for _ in range(2 * n):
            out.append({"g": "semi", "r": wrap(rng, specs.rand_semi(rng, 8), ("gen",))})
        return out

    @staticmethod
    def run(case, obs):
        Y = yy(specs.dense(case["r"]))
        Y = Y.astype(complex) if np.iscomplexobj(Y) else Y.astype(float)
        d = Y.shape[1]
        want = dims_of(case["r"])
        what = f"({specs.describe(case['r'])})"
        got = obs.call("util.is_irreducible", util.is_irreducible, Y)
        obs.equal(bool(got), sum(want.values()) == 1, f"util.is_irreducible{what}")
        pieces = obs.call("util.decompose_rep_into_irreps", util.decompose_rep_into_irreps, Y)
        dims = {}
        for P in pieces:
            obs.equal(P.shape, (len(Y), P.shape[1], P.shape[1]), f"decompose{what}: shape")
            dims[P.shape[1]] = dims.get(P.shape[1], 0) + 1
            obs.equal(orc.hom_dim(P, P, 1e-5)[0], 1, f"decompose{what}: irreducible pieces")
        obs.equal(dims, want, f"decompose{what}: dimensions")
        Z = np.array([specs.bdiag([P[i] for P in pieces]) for i in range(len(Y))])
        k, _ = orc.hom_dim(Y, Z, 1e-5)
        if case["r"]["k"] == "red":
            m = mults(case["r"]["t"])
            obs.equal(k, common(m, m), f"decompose{what}: equivalent to the original")
            for P in pieces:
                hits = 0
                for l in m:
                    t = yy(specs.dense(specs.tab(case["g"], *l)))
                    hits += orc.hom_dim(t, P, 1e-5)[0]
                obs.equal(hits, 1, f"decompose{what}: a piece is one of the irreps")
        tr = np.trace(Z, axis1=1, axis2=2)
        obs.close(tr, np.trace(Y, axis1=1, axis2=2), f"decompose{what}: traces", 1e-6)
        pr = np.einsum("aij,bjk->abik", Y, Y)
        pz = np.einsum("aij,bjk->abik", Z, Z)
        obs.close(np.trace(pz, axis1=2, axis2=3), np.trace(pr, axis1=2, axis2=3),
                  f"decompose{what}: traces of products", 1e-5)
        obs.feature(case["g"], d, sum(want.values()), max(want.values()))
