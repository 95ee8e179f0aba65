"""C10-C19: operations that build representations."""
import numpy as np

import lie_nn as lie

from . import orc, specs
from .core import Skip
from .props import prop
from .specs import GROUPS

GS = ["SU2", "SO3", "O3", "SU2Real", "SL2C", "SO13", "Z2", "SU3", "SU4", "SU2_"]
REDUCED = (lie.ReducedRep, lie.MulIrrep, lie.TabulatedIrrep)


def compare(obs, rep, want, what, tol=1e-8):
    """the library's representation against (A, X, H)"""
    A, X, H = want
    obs.close(obs.call("algebra", rep.algebra), A, f"{what}: algebra", tol)
    obs.equal(int(rep.dim), X.shape[1], f"{what}: dim")
    obs.close(obs.call("continuous_generators", rep.continuous_generators), X,
              f"{what}: continuous generators", tol)
    obs.close(obs.call("discrete_generators", rep.discrete_generators), H,
              f"{what}: discrete generators", tol)


def content(rep):
    """{label: multiplicity} of a ReducedRep / MulIrrep / tabulated irrep made of tabulated irreps"""
    if isinstance(rep, lie.TabulatedIrrep):
        return [(1, rep)]
    if isinstance(rep, lie.MulIrrep):
        return [(rep.mul, rep.rep)]
    return [(mi.mul, mi.rep) for mi in rep.irreps]


def spec_content(s):
    k = s["k"]
    if k == "tab":
        return {tuple(s["l"]): 1}
    if k == "mul":
        return {tuple(s["r"]["l"]): s["m"]} if s["m"] else {}
    out = {}
    for m, r in s["t"]:
        if m:
            out[tuple(r["l"])] = out.get(tuple(r["l"]), 0) + m
    return out


def decomposed(s, fam):
    """described as a multiple or a sum of tabulated irreps"""
    return specs.family_tabulated(fam) and s["k"] not in ("gen", "user")


def maxdim(g):
    return {"SU3": 6, "SU4": 6, "SO13": 6, "Z2": 4}.get(g, 7)


@prop("C10", "All 64 pairs of kinds of representation (tabulated, multiple, sum, sum in another basis, "
      "generic, user-defined, multiples and sums of representations that are not tabulated) for the 10 groups, seeded contents and bases.")
class TensorProduct:
    @staticmethod
    def gen(rng, tier):
        n = 14 if tier == "thorough" else 2
        out = []
        for g in GS:
            for k1 in specs.ALL_KINDS:
                for k2 in specs.ALL_KINDS:
                    for i in range(n):
                        md = maxdim(g) + (3 if tier == "thorough" and i % 3 == 0 else 0)
                        if g in ("SU3", "SU4", "SO13"):
                            md = maxdim(g)
                        a, b = (specs.rand_rep(rng, g, k, md) for k in (k1, k2))
                        out.append({"g": g, "a": a, "b": b, "kinds": [k1, k2],
                                    "cost": specs.dim(a) * specs.dim(b)})
        # larger irreps of the fast groups
        for i in range(80 if tier == "thorough" else 12):
            g = specs.pick(rng, ["SU2", "SO3", "O3", "SL2C"])
            a, b = specs.rand_tab(rng, g, 12), specs.rand_tab(rng, g, 12)
            out.append({"g": g, "a": a, "b": b, "kinds": ["tab", "tab"],
                        "cost": specs.dim(a) * specs.dim(b)})
        # other groups; sums of many terms
        for i in range(1500 if tier == "thorough" else 240):
            fam = specs.rand_family(rng)
            md = 6 if i % 3 else 9
            a, b = (specs.rand_exotic(rng, fam, md, maxterms=5) for _ in range(2))
            out.append({"g": fam[0], "fam": fam, "a": a, "b": b, "kinds": ["gen", "gen"],
                        "cost": specs.dim(a) * specs.dim(b)})
        for i in range(200 if tier == "thorough" else 30):
            g = specs.pick(rng, ["SU2", "SO3", "O3", "SL2C", "SU2_", "Z2", "SU2Real"])
            k1, k2 = specs.pick(rng, ["mul", "manyq"]), specs.pick(rng, ["mul", "many", "manyq"])
            a, b = (specs.rand_red(rng, g, 14, q="yes" if k == "manyq" else "no", maxterms=7, maxmul=6)
                    if k != "mul" else specs.rand_rep(rng, g, "mul", 12) for k in (k1, k2))
            out.append({"g": g, "a": a, "b": b, "kinds": [k1, k2],
                        "cost": specs.dim(a) * specs.dim(b)})
        return out

    @staticmethod
    def run(case, obs):
        a, b = specs.build(case["a"]), specs.build(case["b"])
        what = f"tensor_product({specs.describe(case['a'])}, {specs.describe(case['b'])})"
        out = obs.call("tensor_product", lie.tensor_product, a, b)
        compare(obs, out, specs.kron_dense(specs.dense(case["a"]), specs.dense(case["b"])), what,
                1e-7)
        k1, k2 = case["kinds"]
        if k1 not in specs.OPAQUE and k2 not in specs.OPAQUE:
            obs.check(isinstance(out, lie.ReducedRep), f"{what}: stays decomposed")
            want = {}
            for l1, m1 in spec_content(case["a"]).items():
                for l2, m2 in spec_content(case["b"]).items():
                    for l3, m3 in orc.product(case["g"], l1, l2).items():
                        want[l3] = want.get(l3, 0) + m1 * m2 * m3
            got = {}
            for m, r in content(out):
                l = tuple(GROUPS[case["g"]].label(r))
                got[l] = got.get(l, 0) + m
            obs.equal({k: v for k, v in got.items() if v}, {k: v for k, v in want.items() if v},
                      f"{what}: irreps")
        if "fam" in case:
            if decomposed(case["a"], case["fam"]) and decomposed(case["b"], case["fam"]):
                obs.check(isinstance(out, lie.ReducedRep), f"{what}: stays decomposed")
            k1, k2 = case["a"]["k"], case["b"]["k"]
        obs.feature(case["g"], k1, k2)


def endless(r, p):
    """the terms of the power are not collected: many of them, also when most are of multiplicity zero"""
    return r["k"] == "red" and len(r["t"]) ** p > 1000


@prop("C11", "Representations of all kinds and groups, powers 0 to 5 with bounded dimension.")
class TensorPower:
    @staticmethod
    def gen(rng, tier):
        n = 6 if tier == "thorough" else 1
        out = []
        for g in GS:
            for k in specs.ALL_KINDS:
                for p in range(6):
                    for _ in range(n):
                        md = {0: 6, 1: 6, 2: 6, 3: 4, 4: 3, 5: 2}[p]
                        if g in ("SU3", "SU4", "SO13") and md < 4:
                            md = 4 if p <= 3 and g != "SU3" else 3
                        r = specs.rand_rep(rng, g, k, md)
                        d = specs.dim(r) ** p
                        if d > 90 or (g in ("SU3", "SU4", "SO13") and d > 27):
                            continue
                        out.append({"g": g, "r": r, "p": p, "kind": k, "cost": d * d})
        # other groups, higher powers of small representations
        for i in range(600 if tier == "thorough" else 120):
            fam = specs.rand_family(rng)
            d, p = specs.pick(rng, [(1, 7), (1, 12), (1, 33), (2, 6), (2, 4), (2, 5), (3, 3), (3, 4), (4, 3), (6, 2),
                                    (4, 1), (5, 0)])
            r = specs.rand_exotic(rng, fam, d, opaque=specs.family_tabulated(fam))
            if specs.dim(r) ** p <= 90 and not endless(r, p):
                out.append({"g": fam[0], "r": r, "p": p, "kind": "user", "cost": specs.dim(r) ** (2 * p)})
        for i in range(150 if tier == "thorough" else 30):
            g = specs.pick(rng, [g for g in GS if g not in ("SU3", "SU4", "SO13")])
            k = specs.pick(rng, specs.ALL_KINDS)
            d, p = specs.pick(rng, [(1, 7), (1, 12), (1, 33), (2, 6), (2, 6)])
            r = specs.rand_rep(rng, g, k, d)
            if specs.dim(r) ** p <= 90 and not endless(r, p):
                out.append({"g": g, "r": r, "p": p, "kind": k, "cost": specs.dim(r) ** (2 * p)})
        return out

    @staticmethod
    def run(case, obs):
        r = specs.build(case["r"])
        D = specs.dense(case["r"])
        n, k = len(D[0]), len(D[2])
        want = (D[0], np.zeros((n, 1, 1)), np.ones((k, 1, 1)))
        for _ in range(case["p"]):
            want = specs.kron_dense(want, D)
        what = f"tensor_power({specs.describe(case['r'])}, {case['p']})"
        out = obs.call("tensor_power", lie.tensor_power, r, case["p"])
        compare(obs, out, want, what, 1e-7)
        if case["p"] >= 1 and case["kind"] not in specs.OPAQUE:
            obs.check(isinstance(out, REDUCED), f"{what}: stays decomposed")
        obs.feature(case["g"], case["kind"], case["p"])


@prop("C12", "Pairs of representations of all kinds and groups.")
class DirectSum:
    @staticmethod
    def gen(rng, tier):
        n = 8 if tier == "thorough" else 2
        out = []
        for g in GS:
            for k1 in specs.ALL_KINDS:
                for k2 in specs.ALL_KINDS:
                    for _ in range(n):
                        a, b, c = (specs.rand_rep(rng, g, k, 10) for k in (k1, k2, k1))
                        out.append({"g": g, "a": a, "b": b, "c": c})
        for i in range(600 if tier == "thorough" else 150):
            fam = specs.rand_family(rng)
            a, b, c = (specs.rand_exotic(rng, fam, 10, maxterms=5) for _ in range(3))
            out.append({"g": fam[0], "a": a, "b": b, "c": c})
        return out

    @staticmethod
    def run(case, obs):
        a, b, c = (specs.build(case[x]) for x in "abc")
        da, db, dc = (specs.dense(case[x]) for x in "abc")
        what = f"direct_sum({specs.describe(case['a'])}, {specs.describe(case['b'])})"

        def dsum(*ds):
            d = sum(x[1].shape[1] for x in ds)
            X = [specs.bdiag([x[1][i] for x in ds]) for i in range(len(da[1]))]
            H = [specs.bdiag([x[2][i] for x in ds]) for i in range(len(da[2]))]
            return da[0], np.array(X).reshape(len(X), d, d), np.array(H).reshape(len(H), d, d)

        out = obs.call("direct_sum", lie.direct_sum, a, b)
        compare(obs, out, dsum(da, db), what)
        out = obs.call("direct_sum", lie.direct_sum, out, c)
        compare(obs, out, dsum(da, db, dc), what + " + third")
        obs.feature(case["g"], case["a"]["k"], case["b"]["k"])


@prop("C13", "Representations of all kinds and groups with two seeded changes of basis of all shapes "
      "(orthogonal, unitary, permutation, signed, diagonal, triangular, general real and complex).")
class ChangeBasis:
    @staticmethod
    def gen(rng, tier):
        n = 12 if tier == "thorough" else 2
        out = [
            {"g": g, "r": specs.rand_rep(rng, g, k, 10), "p": specs.rand_q(rng),
             "q": [qk, int(rng.integers(10**6))], "kind": k}
            for g in GS for k in specs.ALL_KINDS for qk in specs.QKINDS for _ in range(n)
        ]
        for i in range(60 * n):
            fam = specs.rand_family(rng)
            out.append({"g": fam[0], "fam": fam, "r": specs.rand_exotic(rng, fam, 20 if i % 4 == 0 else 10, maxterms=5),
                        "p": specs.rand_q(rng), "q": specs.rand_q(rng), "kind": "gen"})
        for g in GS:
            for k in specs.ALL_KINDS:
                for _ in range(n):
                    out.append({"g": g, "r": specs.rand_rep(rng, g, k, 8), "kind": k, "wide": 1,
                                "q": [specs.pick(rng, ["wide", "widerot"]), int(rng.integers(10**6))]})
        return out

    @staticmethod
    def wide(case, obs):
        """ill conditioned changes of basis: precision relative to the largest number"""
        r = specs.build(case["r"])
        A, X, H = specs.dense(case["r"])
        Q = specs.basis(case["q"], X.shape[1])
        out = obs.call("change_basis", lie.change_basis, r, Q)
        iQ = np.linalg.inv(Q)
        what = f"change_basis({specs.describe(case['r'])}, {case['q'][0]})"
        for got, M in ((out.continuous_generators(), X), (out.discrete_generators(), H)):
            want = Q @ M @ iQ
            obs.close(got, want, what, 1e-6, scale=float(np.abs(want).max(initial=0)))
        obs.feature(case["g"], case["kind"], case["q"][0])

    @staticmethod
    def run(case, obs):
        if case.get("wide"):
            return ChangeBasis.wide(case, obs)
        r = specs.build(case["r"])
        A, X, H = specs.dense(case["r"])
        d = X.shape[1]
        P, Q = specs.basis(case["p"], d), specs.basis(case["q"], d)
        what = f"change_basis({specs.describe(case['r'])}, {case['q'][0]})"
        out = obs.call("change_basis", lie.change_basis, r, Q)
        compare(obs, out, (A, specs.conj_by(Q, X), specs.conj_by(Q, H)), what)
        if case["kind"] not in specs.OPAQUE:
            obs.check(isinstance(out, lie.ReducedRep), f"{what}: stays decomposed")
            obs.equal(spec_content(case["r"]),
                      {tuple(GROUPS[case["g"]].label(x)): m for m, x in merged(out)},
                      f"{what}: same irreps")
        if "fam" in case and decomposed(case["r"], case["fam"]):
            obs.check(isinstance(out, lie.ReducedRep), f"{what}: stays decomposed")
        out2 = obs.call("change_basis", lie.change_basis, out, P)
        compare(obs, out2, (A, specs.conj_by(P @ Q, X), specs.conj_by(P @ Q, H)),
                what + " then " + case["p"][0])
        back = obs.call("change_basis", lie.change_basis, out, np.linalg.inv(Q))
        compare(obs, back, (A, X, H), what + " and back")
        compare(obs, r, (A, X, H), what + ": the original is untouched")
        obs.feature(case["g"], case["kind"], case["q"][0])


def merged(rep):
    acc = {}
    for m, r in content(rep):
        acc[r] = acc.get(r, 0) + m
    return [(m, r) for r, m in acc.items() if m]


@prop("C14", "Representations of all kinds and groups with continuous generators, seeded real and "
      "complex changes of the Lie algebra basis.")
class ChangeAlgebra:
    @staticmethod
    def gen(rng, tier):
        n = 10 if tier == "thorough" else 2
        out = [
            {"g": g, "r": specs.rand_rep(rng, g, k, 8), "kind": k, "p": specs.rand_q(rng),
             "q": [qk, int(rng.integers(10**6))]}
            for g in GS if g != "Z2" for k in specs.ALL_KINDS for qk in specs.QKINDS for _ in range(n)
        ]
        for i in range(60 * n):
            fam = specs.rand_family(rng)
            r = specs.rand_exotic(rng, fam, 8, maxterms=5)
            if specs.n_gen(r)[0]:
                out.append({"g": fam[0], "r": r, "kind": r["k"], "p": specs.rand_q(rng), "q": specs.rand_q(rng)})
        for g in GS:
            for k in specs.ALL_KINDS if g != "Z2" else ():
                for _ in range(n):
                    out.append({"g": g, "r": specs.rand_rep(rng, g, k, 8), "kind": k, "wide": 1,
                                "q": [specs.pick(rng, ["wide", "widerot"]), int(rng.integers(10**6))]})
        return out

    @staticmethod
    def wide(case, obs):
        """generators rescaled by very different factors: precision relative to the largest number"""
        r = specs.build(case["r"])
        A, X, H = specs.dense(case["r"])
        Q = specs.basis(case["q"], len(A))
        out = obs.call("change_algebra", lie.change_algebra, r, Q)
        what = f"change_algebra({specs.describe(case['r'])}, {case['q'][0]})"
        want = np.einsum("ia,auv->iuv", Q, X)
        obs.close(out.X, want, what, 1e-9, scale=float(np.abs(want).max()))
        want = np.einsum("ia,jb,abc,ck->ijk", Q, Q, A, np.linalg.inv(Q), optimize=True)
        obs.close(out.A, want, f"{what}: structure constants", 1e-6, scale=float(np.abs(want).max()))
        Xo = out.X
        # the small commutators too
        norm = np.linalg.norm(Xo, axis=(1, 2)) + 1e-300
        com = np.einsum("iab,jbc->ijac", Xo, Xo)
        com = com - com.transpose(1, 0, 2, 3)
        err = np.abs(com - np.einsum("ijk,kac->ijac", out.A, Xo)).max(axis=(2, 3))
        size = np.abs(out.A) @ norm + norm[:, None] * norm[None, :]
        obs.zero(err / (size + 1e-300), f"{what}: the new generators satisfy the new algebra", 1e-7)
        obs.feature(case["g"], case["kind"], case["q"][0])

    @staticmethod
    def run(case, obs):
        if case.get("wide"):
            return ChangeAlgebra.wide(case, obs)
        r = specs.build(case["r"])
        A, X, H = specs.dense(case["r"])
        n = len(A)
        P, Q = specs.basis(case["p"], n), specs.basis(case["q"], n)
        what = f"change_algebra({specs.describe(case['r'])}, {case['q'][0]})"
        out = obs.call("change_algebra", lie.change_algebra, r, Q)

        def want(Q):
            iQ = np.linalg.inv(Q)
            return (np.einsum("ia,jb,abc,ck->ijk", Q, Q, A, iQ, optimize=True),
                    np.einsum("ia,auv->iuv", Q, X), H)

        compare(obs, out, want(Q), what)
        Ao, Xo = out.algebra(), out.continuous_generators()
        com = np.einsum("iab,jbc->ijac", Xo, Xo)
        obs.close(com - com.transpose(1, 0, 2, 3), np.einsum("ijk,kac->ijac", Ao, Xo),
                  f"{what}: the new generators satisfy the new algebra")
        c = np.random.default_rng(case["q"][1]).normal(size=n) * 0.5
        k = np.ones(len(H), dtype=int)
        obs.close(obs.call("exp_map", out.exp_map, c, k), obs.call("exp_map", r.exp_map, Q.T @ c, k),
                  f"{what}: the same group elements", 1e-8)
        out2 = obs.call("change_algebra", lie.change_algebra, out, P)
        compare(obs, out2, want(P @ Q), what + " composed")
        back = obs.call("change_algebra", lie.change_algebra, out, np.linalg.inv(Q))
        compare(obs, back, (A, X, H), what + " and back")
        obs.feature(case["g"], case["kind"], case["q"][0])


@prop("C15", "Representations of all kinds, groups and bases.")
class Conjugate:
    @staticmethod
    def gen(rng, tier):
        n = 30 if tier == "thorough" else 6
        out = [{"g": g, "r": specs.rand_rep(rng, g, k, 12), "kind": k}
               for g in GS for k in specs.ALL_KINDS for _ in range(n)]
        for i in range(40 * n):
            fam = specs.rand_family(rng)
            r = specs.rand_exotic(rng, fam, 12, maxterms=5)
            out.append({"g": fam[0], "r": r, "kind": r["k"]})
        return out

    @staticmethod
    def run(case, obs):
        r = specs.build(case["r"])
        A, X, H = specs.dense(case["r"])
        what = f"conjugate({specs.describe(case['r'])})"
        out = obs.call("conjugate", lie.conjugate, r)
        compare(obs, out, (A, X.conj(), H.conj()), what, 1e-9)
        com = np.einsum("iab,jbc->ijac", out.X, out.X)
        obs.close(com - com.transpose(1, 0, 2, 3), np.einsum("ijk,kac->ijac", out.A, out.X),
                  f"{what}: a representation of the same algebra")
        compare(obs, obs.call("conjugate", lie.conjugate, out), (A, X, H), what + " twice", 1e-9)
        obs.feature(case["g"], case["kind"], bool(np.abs(X.imag).max(initial=0) > 1e-9))


# ---------------------------------------------------------------------------------------------


def small_tab(rng, md):
    return specs.rand_tab(rng, specs.pick(rng, GS), md)


@prop("C16", "Pairs and triples of groups; tabulated irreps, products of tabulated irreps, generic, "
      "reduced and finite-group factors.")
class GroupProduct:
    @staticmethod
    def gen(rng, tier):
        n = 1200 if tier == "thorough" else 160
        out = []
        for i in range(n):
            mode = ["tab2", "tab3", "mix2", "mix3", "rule", "cg"][i % 6]
            if mode == "tab2":
                out.append({"mode": mode, "r": [small_tab(rng, 6) for _ in range(2)]})
            elif mode == "tab3":
                out.append({"mode": mode, "r": [small_tab(rng, 4) for _ in range(3)]})
            elif mode in ("mix2", "mix3"):
                rs = []
                for _ in range(int(mode[-1])):
                    if rng.random() < 0.25:
                        m = int(rng.integers(2, 5))
                        rs.append({"k": "sn", "t": specs.pick(rng, ["nat", "std", "tri"]), "n": m})
                    else:
                        rs.append(specs.rand_rep(rng, specs.pick(rng, GS),
                                                 specs.pick(rng, specs.ALL_KINDS), 4))
                out.append({"mode": mode, "r": rs})
            else:
                g1, g2 = specs.pick(rng, GS), specs.pick(rng, GS)
                md = 5 if mode == "rule" else 4
                out.append({"mode": mode, "r": [
                    {"k": "gp", "r": [specs.rand_tab(rng, g1, md), specs.rand_tab(rng, g2, md)]}
                    for _ in range(2)], "g": [g1, g2], "s": int(rng.integers(10**6)), "cost": 5})
        return out

    @staticmethod
    def run(case, obs):
        mode = case["mode"]
        rs = [specs.build(s) for s in case["r"]]
        what = f"group_product({', '.join(map(specs.describe, case['r']))})"
        if mode in ("tab2", "tab3", "mix2", "mix3"):
            out = obs.call("group_product", lie.group_product, *rs)
            want = specs.dense({"k": "gp", "r": case["r"]})
            compare(obs, out, want, what)
            obs.equal(int(out.lie_dim), len(want[0]), f"{what}: lie_dim")
            if mode.startswith("tab"):
                obs.check(isinstance(out, lie.TabulatedIrrep), f"{what}: stays tabulated")
                again = lie.group_product(*rs)
                obs.check(out == again and hash(out) == hash(again), "equal factors, equal product")
            X = out.X
            n1 = len(specs.dense(case["r"][0])[0])
            if len(X) > n1 > 0:
                com = np.einsum("iab,jbc->ijac", X[:n1], X[n1:])
                com = com - np.einsum("jab,ibc->ijac", X[n1:], X[:n1])
                obs.zero(com, f"{what}: the factors commute", 1e-8)
            obs.feature(mode, *[s.get("g", s["k"]) for s in case["r"]])
            return
        a, b = rs
        g1, g2 = case["g"]
        la, lb = ([t["l"] for t in s["r"]] for s in case["r"])
        want1, want2 = orc.product(g1, la[0], lb[0]), orc.product(g2, la[1], lb[1])
        got = obs.call("__mul__", lambda: list(a * b))
        labels = [(tuple(GROUPS[g1].label(r.rep1)), tuple(GROUPS[g2].label(r.rep2))) for r in got]
        obs.equal(sorted(labels), sorted((x, y) for x in want1 for y in want2),
                  f"{what}: selection rule of the product group")
        if mode == "rule":
            x, y = a, b
            same = la == lb
            obs.equal((x < y) + (y < x), 0 if same else 1, f"{what}: ordering")
            r1 = (GROUPS[g1].make(la[0]), GROUPS[g1].make(lb[0]))
            if la[0] != lb[0]:
                obs.equal(bool(x < y), bool(r1[0] < r1[1]), f"{what}: first factor decides")
        else:
            rng = np.random.default_rng(case["s"])
            from .p_cg import check_equivariance, orthonormal, xh
            for i in rng.permutation(len(got))[:3]:
                c = got[i]
                if a.dim * b.dim * c.dim > 3000:
                    continue
                C = obs.call("clebsch_gordan", lie.clebsch_gordan, a, b, c)
                m = want1[labels[i][0]] * want2[labels[i][1]]
                obs.equal(C.shape, (m, a.dim, b.dim, c.dim), f"{what}: CG paths")
                check_equivariance(obs, C, xh(a), xh(b), xh(c), what)
                orthonormal(obs, C, what)
            if a.dim * b.dim <= 40:
                out = obs.call("tensor_product", lie.tensor_product, a, b)
                compare(obs, out, specs.kron_dense(specs.dense(case["r"][0]),
                                                   specs.dense(case["r"][1])), what, 1e-7)
        obs.feature(mode, g1, g2)


@prop("C17", "Representations of all kinds, groups (finite included) and seeded parameters.")
class ExpMap:
    @staticmethod
    def gen(rng, tier):
        n = 16 if tier == "thorough" else 4
        out = [{"g": g, "r": specs.rand_rep(rng, g, k, 7), "o": specs.rand_rep(rng, g, k, 4),
                "kind": k, "s": int(rng.integers(10**6))}
               for g in GS for k in specs.ALL_KINDS for _ in range(n)]
        for m in (1, 2, 3, 4, 5, 7, 11):
            for t in ("nat", "std", "tri"):
                if t == "std" and m == 1:
                    continue
                for _ in range(n if m < 6 else 2):
                    out.append({"g": "Sn", "r": {"k": "sn", "t": t, "n": m}, "kind": "sn",
                                "o": {"k": "sn", "t": "nat", "n": m},
                                "s": int(rng.integers(10**6))})
        for _ in range(10 * n):
            r = {"k": "gp", "r": [
                specs.rand_tab(rng, specs.pick(rng, [g for g in GS if g != "SU4"]), 3),
                specs.tab("O3", int(rng.integers(0, 2)), -1),
                specs.rand_tab(rng, specs.pick(rng, [g for g in GS if g != "SU4"]), 3)]}
            out.append({"g": "gp", "r": r, "o": r, "kind": "gp", "s": int(rng.integers(10**6))})
            fam = specs.rand_family(rng)
            r, o = (specs.rand_exotic(rng, fam, d, maxterms=5) for d in (8, 4))
            out.append({"g": fam[0], "r": r, "o": o, "kind": r["k"], "s": int(rng.integers(10**6))})
        return out

    @staticmethod
    def run(case, obs):
        r = specs.build(case["r"])
        A, X, H = specs.dense(case["r"])
        d = X.shape[1]
        rng = np.random.default_rng(case["s"])
        c = rng.normal(size=len(X)) * 0.7
        if case["s"] % 5 == 0:
            c = c * rng.uniform(1, 4)
        if case["s"] % 6 == 1:  # the complexified group
            c = c * np.exp(1j * rng.uniform(-np.pi, np.pi, size=len(X)))
        k = rng.integers(-2, 5, size=len(H)) if case["s"] % 7 else rng.integers(-30, 31, size=len(H))
        if case["g"] == "Sn" and case["r"]["n"] > 5 or case["s"] % 13 == 0 and np.abs(
                np.abs(H @ H.conj().swapaxes(1, 2)) - np.eye(d)).max(initial=0) < 1e-9:
            k = rng.integers(-500, 501, size=len(H))
        what = f"exp_map({specs.describe(case['r'])})"

        def want(c, k, X=X, H=H):
            out = np.eye(X.shape[1])
            for h, n in zip(H, k):
                out = out @ np.linalg.matrix_power(h, int(n))
            return out @ orc.expm(np.einsum("a,aij->ij", c, X)) if len(X) else out

        M = obs.call("exp_map", r.exp_map, c, k)
        obs.close(M, want(c, k), f"{what}: product of the generators' powers and exponential", 1e-8)
        z = np.zeros(len(H), dtype=int)
        obs.close(obs.call("exp_map", r.exp_map, 0 * c, z), np.eye(d), f"{what}: identity", 1e-10)
        s, t = rng.uniform(-1, 1, size=2)
        Ms, Mt = (obs.call("exp_map", r.exp_map, x * c, z) for x in (s, t))
        Mst = obs.call("exp_map", r.exp_map, (s + t) * c, z)

        def size(*a):
            return float(np.prod([np.abs(x).max(initial=0) for x in a]))

        obs.close(Ms @ Mt, Mst, f"{what}: one-parameter subgroup", 1e-8, scale=max(size(Ms, Mt), size(Mst)))
        inv = obs.call("exp_map", r.exp_map, -c, z)
        M0 = obs.call("exp_map", r.exp_map, c, z)
        obs.close(inv @ M0, np.eye(d), f"{what}: inverse", 1e-8, scale=size(inv, M0))
        # compatibility with the constructions
        o = specs.build(case["o"])
        Mo = obs.call("exp_map", o.exp_map, c, k)
        if d * Mo.shape[0] <= 30:
            tp = obs.call("tensor_product", lie.tensor_product, r, o)
            obs.close(obs.call("exp_map", tp.exp_map, c, k), np.kron(M, Mo),
                      f"{what}: tensor product acts by the Kronecker product", 1e-7)
        ds = obs.call("direct_sum", lie.direct_sum, r, o)
        obs.close(obs.call("exp_map", ds.exp_map, c, k), specs.bdiag([M, Mo]),
                  f"{what}: direct sum acts by blocks", 1e-8)
        # conjugation by the group preserves the algebra:  M X_i M^-1 in the span of X
        if len(X) and float(np.abs(X).max()) > 1e-9:
            ad = np.einsum("a,abc->bc", c, np.real(A))  # [c.X, X_b] = ad_bc X_c
            left = np.einsum("ij,ajk,kl->ail", M0, X, np.linalg.inv(M0), optimize=True)
            right = np.einsum("bc,cij->bij", orc.expm(ad), X)
            obs.close(left, right, f"{what}: adjoint action", 1e-6,
                      scale=max(size(M0, inv, X), size(right)))
        obs.feature(case["g"], case["kind"])


@prop("C18", "Representations of all kinds and groups in unitary and non-unitary bases, sums and "
      "irreps, trivial and non-trivial.")
class Predicates:
    @staticmethod
    def gen(rng, tier):
        n = 30 if tier == "thorough" else 6
        out = []
        for g in GS:
            for i in range(n):
                for mode in ("irr", "sum", "triv", "onedim"):
                    qk = specs.UNITARY if i % 2 else ["diag", "real", "cplx", "tri"]
                    q = specs.rand_q(rng, qk)
                    md = 6
                    if mode == "irr":
                        t = [[1, specs.rand_tab(rng, g, md)]]
                    elif mode == "sum":
                        t = specs.rand_red(rng, g, md)["t"]
                    else:
                        t = [[1, specs.tab(g, *{"O3": [0, 1], "Z2": [1], "SL2C": [0, 0],
                                                "SO13": [0, 0], "SU2_": [0, 0], "SU3": [0, 0, 0],
                                                "SU4": [0, 0, 0, 0]}.get(g, [0]))]]
                        if mode == "onedim":
                            t = [[int(rng.integers(1, 3)), specs.rand_tab(rng, g, 1)]]
                    r = {"k": "red", "t": t, "q": None if mode == "triv" else q}
                    kind = specs.pick(rng, ["red", "gen", "user"])
                    if kind != "red":
                        r = {"k": kind, "r": r, "q": None}
                    out.append({"g": g, "r": r, "t": t, "unit": bool(i % 2), "mode": mode,
                                "kind": kind})
        for i in range(40 * n):
            # characters of abelian groups, with small charges
            out.append({"mode": "charge", "g": "U1", "s": int(rng.integers(10**6)), "kind": "gen"})
        for i in range(20 * n):
            # discrete generators that do not commute with the continuous ones
            g = specs.pick(rng, ["SU2", "SO3", "SL2C", "SU3", "SU2_", "O2", "O2", "SU4"])
            out.append({"mode": "semi", "g": g, "kind": specs.pick(rng, ["gen", "user"]),
                        "r": [specs.rand_tab(rng, g, 4) for _ in range(int(rng.integers(1, 3)))]
                        if g != "O2" else [int(x) for x in rng.integers(0, 3, size=int(rng.integers(1, 3)))],
                        "swap": bool(rng.random() < 0.7), "q": specs.rand_q(rng, specs.UNITARY)
                        if rng.random() < 0.6 else None})
        return out

    @staticmethod
    def charge(case, obs):
        rng = np.random.default_rng(case["s"])
        n, m, d = (int(x) for x in (rng.integers(0, 3), rng.integers(0, 3), rng.integers(1, 3)))
        if case["s"] % 3 == 0:  # larger groups
            n, m = int(rng.integers(0, 16)), int(rng.integers(0, 9))
        X = np.zeros((n, d, d), dtype=complex)
        H = np.ones((m, d, d), dtype=complex) * np.eye(d)
        small = 10.0 ** rng.uniform(-12, 0)
        trivial, unitary = d == 1, True
        for i in range(n):
            if rng.random() < (0.4 if n < 4 else 0.5 / n):
                X[i, d - 1, d - 1] = small * specs.pick(rng, [1j, -1j])
                trivial = False
        for i in range(m):
            if rng.random() < (0.3 if m < 4 else 0.5 / m):
                H[i, 0, 0] = np.exp(specs.pick(rng, [1j, -1j]) * (1e-3 + small))
                trivial = False
        if rng.random() < 0.3 and n:
            X[0, 0, 0] += 1e-11 + small
            trivial, unitary = False, False
        if rng.random() < 0.3 and m:
            H[m - 1, d - 1, d - 1] *= 1 + specs.pick(rng, [0.9, -0.9]) * (1e-10 + small)
            trivial, unitary = False, False
        r = specs.pick(rng, [lie.GenericRep, specs.UserRep])(np.zeros((n, n, n)), X, H)
        what = f"X = {[np.diag(x).tolist() for x in X]}, H = {[np.diag(x).tolist() for x in H]}"
        obs.equal(bool(obs.call("is_trivial", r.is_trivial)), trivial, f"is_trivial({what})")
        obs.equal(bool(obs.call("is_unitary", lie.is_unitary, r)), unitary, f"is_unitary({what})")
        if n + m:
            obs.equal(bool(obs.call("is_irreducible", lie.is_irreducible, r)), d == 1, f"is_irreducible({what})")
        obs.check(bool(r.create_trivial().is_trivial()), "create_trivial gives a trivial representation")
        obs.feature("charge", n, m, d, trivial)

    @staticmethod
    def semi(case, obs):
        """O(2), or the extension of a group by complex conjugation"""
        Xs, Hs = [], []
        for t in case["r"]:
            if case["g"] == "O2":
                X = np.array([[[0.0, -t], [t, 0.0]]])
                Xs.append(X)
                Hs.append(np.diag([1.0, -1.0]) if case["swap"] else np.eye(2))
                A = np.zeros((1, 1, 1))
            else:
                A, X, _ = specs.dense(t)
                d = X.shape[1]
                Xs.append(np.array([specs.bdiag([x, x.conj()]) for x in X]))
                Hs.append(np.kron([[0.0, 1.0], [1.0, 0.0]], np.eye(d)) if case["swap"] else np.eye(2 * d))
        X = specs.bdiag_list([[x[i] for x in Xs] for i in range(len(A))])
        H = specs.bdiag(Hs)[None]
        q = specs.basis(case["q"], X.shape[1])
        X, H = specs.conj_by(q, X), specs.conj_by(q, H)
        r = (lie.GenericRep if case["kind"] == "gen" else specs.UserRep)(A, X, H)
        what = f"{case['g']} {case['r']}, H = {'swap' if case['swap'] else 1}"
        Y = np.concatenate([X, H])
        c = orc.hom_dim(Y, Y)[0]
        obs.equal(bool(obs.call("is_irreducible", lie.is_irreducible, r)), c == 1,
                  f"is_irreducible({what})")
        obs.equal(bool(obs.call("is_unitary", lie.is_unitary, r)),
                  np.abs(X + X.conj().swapaxes(1, 2)).max(initial=0) < 1e-6, f"is_unitary({what})")
        obs.equal(bool(obs.call("is_trivial", r.is_trivial)), False, f"is_trivial({what})")
        obs.feature("semi", case["g"], case["swap"], c)

    @staticmethod
    def run(case, obs):
        if case["mode"] == "semi":
            return Predicates.semi(case, obs)
        if case["mode"] == "charge":
            return Predicates.charge(case, obs)
        r = specs.build(case["r"])
        A, X, H = specs.dense(case["r"])
        d = X.shape[1]
        what = f"{specs.describe(case['r'])}"
        irr = sum(m for m, _ in case["t"]) == 1
        got = obs.call("is_irreducible", lie.is_irreducible, r)
        obs.equal(bool(got), irr, f"is_irreducible({what})")
        defect = max(np.abs(X + np.conj(np.swapaxes(X, 1, 2))).max(initial=0),
                     np.abs(H @ np.conj(np.swapaxes(H, 1, 2)) - np.eye(d)).max(initial=0))
        got = bool(obs.call("is_unitary", lie.is_unitary, r))
        if defect > 1e-6:
            obs.equal(got, False, f"is_unitary({what})")
        elif defect < 2e-14:
            obs.equal(got, True, f"is_unitary({what})")
        triv = d == 1 and np.abs(X).max(initial=0) < 1e-9 and np.abs(H - 1).max(initial=0) < 1e-9
        exact = d == 1 and np.all(X == 0) and np.all(H == 1)
        got = bool(obs.call("is_trivial", r.is_trivial))
        if not triv or exact:
            if case["kind"] != "red" or not triv or case["mode"] == "triv":
                obs.equal(got, bool(triv), f"is_trivial({what})")
        one = obs.call("create_trivial", r.create_trivial)
        obs.equal((one.dim, one.X.shape, one.H.shape),
                  (1, (len(X), 1, 1), (len(H), 1, 1)), f"create_trivial({what})")
        obs.zero(one.X, "trivial representation: generators", 1e-14)
        obs.zero(one.H - 1.0, "trivial representation: discrete generators", 1e-14)
        obs.close(one.A, A, "trivial representation: same algebra", 1e-12)
        obs.check(bool(one.is_trivial()), "create_trivial gives a trivial representation")
        g = obs.call("GenericRep.from_rep", lie.GenericRep.from_rep, r)
        compare(obs, g, (A, X, H), f"GenericRep.from_rep({what})", 1e-10)
        obs.check(isinstance(repr(r), str) and isinstance(repr(g), str), "repr")
        obs.feature(case["g"], case["mode"], case["kind"], irr, defect > 1e-6)


# ---------------------------------------------------------------------------------------------


@prop("C19", "Tabulated irreps of all groups, representations of every kind of groups with several (complex, "
      "not commuting) discrete generators, seeded parameters; random real, complex and integer matrices and exponents for "
      "the matrix power.")
class Jax:
    @staticmethod
    def gen(rng, tier):
        n = 240 if tier == "thorough" else 10
        out = []
        for g in ("SU2", "SO3", "O3", "SU2Real", "SL2C", "SO13", "Z2", "SU3"):
            ls = specs.small_labels(g, 5)
            for i in range(n):
                out.append({"m": "exp", "g": g, "l": specs.pick(rng, ls),
                            "s": int(rng.integers(10**6)), "cost": 1})
        for i in range(6 * n):
            out.append({"m": "pow", "d": int(rng.integers(1, 5)), "n": [0, 1, 2, 3, 5, 8, 13, 31,
                        64, 100, 255, 1000, 40000, 2**20 + 5, 2**30 + 3, 2**31 - 1][int(rng.integers(16))], "s": int(rng.integers(10**6))})
        for i in range(6 * n):
            fam = specs.rand_family(rng)
            out.append({"m": "exp", "g": fam[0], "r": specs.rand_exotic(rng, fam, 7), "s": int(rng.integers(10**6))})
        out = [{"m": out[i]["m"], "batch": out[i : i + 4], "cost": 1}
               for i in range(0, len(out), 4)]
        return out

    @staticmethod
    def run(case, obs):
        import dataclasses

        import jax
        import jax.numpy as jnp
        from lie_nn._src import jax_utils

        for sub in case["batch"]:
            rng = np.random.default_rng(sub["s"])
            if sub["m"] == "pow":
                F = specs._haar(rng, sub["d"], False)
                if sub["n"] > 100:  # powers of exact matrices
                    F = specs.basis(["signperm", sub["s"]], sub["d"])
                dt = jnp.float32
                if sub["s"] % 3 == 0:  # complex matrices
                    F, dt = F * np.exp(2j * np.pi * rng.integers(0, 12, size=(sub["d"], 1)) / 4), jnp.complex64
                elif sub["s"] % 3 == 1 and sub["n"] > 100:
                    dt = jnp.int32
                got = np.asarray(obs.call("jax matrix_power", jax_utils.matrix_power,
                                          jnp.asarray(F, dtype=dt), sub["n"]))
                obs.close(got, np.linalg.matrix_power(F, sub["n"]), f"F**{sub['n']}", 2e-3)
                obs.feature("pow", sub["n"])
                continue
            if "r" in sub:  # other groups, other kinds of representations
                sub["l"] = specs.describe(sub["r"])
                r = specs.build(sub["r"])
                n_x, n_h = specs.n_gen(sub["r"])
                if n_h == 0 and n_x == 0:
                    continue
            else:
                G = GROUPS[sub["g"]]
                r = G.make(sub["l"])
                n_x, n_h = G.lie_dim, G.n_h
            c = rng.normal(size=n_x) * 0.6
            k = rng.integers(0, 4, size=n_h)
            got = obs.call("jax exp_map", jax_utils.exp_map, r, jnp.asarray(c, dtype=jnp.float32),
                           jnp.asarray(k, dtype=jnp.int32))
            want = r.exp_map(c, k)
            obs.close(np.asarray(got), want, f"jax exp_map {sub['g']}{sub['l']}", 1e-3)
            how = sub["s"] % 4
            f = lambda c, k: jax_utils.exp_map(r, c, k)  # noqa: E731
            c2 = jnp.asarray(np.stack([c, 0.5 * c, -c]), dtype=jnp.float32)
            k2 = jnp.asarray(np.stack([k, k + 1, k]), dtype=jnp.int32)
            want2 = np.stack([want, r.exp_map(0.5 * c, k + 1), r.exp_map(-c, k)])
            if how == 0:
                got = obs.call("jit(jax exp_map)", jax.jit(f), c2[0], k2[0])
                obs.close(np.asarray(got), want, f"jit(jax exp_map) {sub['g']}{sub['l']}", 1e-3)
            elif how == 1:
                got = obs.call("vmap(jax exp_map)", jax.vmap(f), c2, k2)
                obs.close(np.asarray(got), want2, f"vmap(jax exp_map) {sub['g']}{sub['l']}", 1e-3)
            elif how == 2 and len(c):
                _, got = obs.call("jvp(jax exp_map)", jax.jvp, lambda t: f(t * c2[0], k2[0]), (1.0,), (1.0,))
                h = 1e-4
                num = (r.exp_map((1 + h) * c, k) - r.exp_map((1 - h) * c, k)) / (2 * h)
                obs.close(np.asarray(got), num, f"derivative of jax exp_map {sub['g']}{sub['l']}", 3e-3)
            elif "r" not in sub:

                class Static(type(r)):
                    pass

                cls = jax_utils.static_jax_pytree(Static)
                vals = [getattr(r, x.name) for x in dataclasses.fields(r)]
                s = cls(*vals)
                leaves, tree = jax.tree_util.tree_flatten(s)
                obs.equal(leaves, [], "a static pytree has no leaves")
                obs.equal(jax.tree_util.tree_unflatten(tree, leaves), s, "a static pytree survives")
                got = obs.call("jit with a pytree", jax.jit(jax_utils.exp_map), s, c2[0], k2[0])
                obs.close(np.asarray(got), want, f"jit with a pytree {sub['g']}{sub['l']}", 1e-3)
            obs.feature("how", how)
            obs.feature("exp", sub["g"])
