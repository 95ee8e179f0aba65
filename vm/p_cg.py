"""C07-C09: Clebsch-Gordan coefficients of the tabulated irreps."""
import json

import numpy as np

import lie_nn as lie

from . import orc, specs
from .core import Skip
from .props import prop
from .specs import GROUPS


def check_equivariance(obs, C, r1, r2, r3, what, tol=1e-8):
    """C[z,i,j,k] : v3_k = C_ijk v1_i v2_j commutes with all generators"""
    X1, X2, X3 = (r[0] for r in (r1, r2, r3))
    H1, H2, H3 = (r[1] for r in (r1, r2, r3))
    s = max([float(np.abs(x).max(initial=0)) for x in (X1, X2, X3)])
    s = s * (1 + float(np.abs(C).max(initial=0)))
    if len(X1):
        left = np.einsum("zijk,dlk->zdijl", C, X3)
        right = np.einsum("dil,zijk->zdljk", X1, C) + np.einsum("djl,zijk->zdilk", X2, C)
        obs.close(left, right, f"{what}: infinitesimal equivariance", tol, scale=s)
    if len(H1):
        left = np.einsum("zijk,dlk->zdijl", C, H3)
        right = np.einsum("dai,zabk,dbj->zdijk", H1, C, H2, optimize=True)
        obs.close(left, right, f"{what}: discrete equivariance", tol,
                  scale=float(np.abs(C).max(initial=0)))


def xh(rep):
    return np.array(rep.continuous_generators()), np.array(rep.discrete_generators())


def orthonormal(obs, C, what):
    z, d1, d2, d3 = C.shape
    M = np.moveaxis(C, 3, 1).reshape(z * d3, d1 * d2)
    obs.close(M @ M.conj().T, np.eye(z * d3), f"{what}: orthonormal paths", 1e-8)
    return M


def pairs_for(rng, g, tier):
    """labels (l1, l2) with a bounded cost"""
    t = tier == "thorough"
    G = GROUPS[g]
    bound, d12, n = {
        "SU2": (24, 400 if t else 260, 60), "SO3": (14, 400 if t else 260, 50),
        "O3": (10, 300, 40), "SU2Real": (6, 130 if t else 80, 20), "SL2C": (6, 160 if t else 110, 50),
        "SO13": (5, 64 if t else 36, 30), "Z2": (1, 9, 10), "SU2_": (8, 40, 30),
        "SU3": (4, 120 if t else 64, 36), "SU4": (3, 60 if t else 36, 16),
        "SU5": (2, 50 if t else 25, 6), "SU6": (1, 36, 3), "SU7": (1, 49, 1),
    }.get(g) or (2, 120 if t else 64, 12)
    if g in ("SU3*SU3",):
        d12 = 81
    if t:
        n *= 6
    ls = G.labels(bound)
    pairs = [(a, b) for a in ls for b in ls if G.dim(a) * G.dim(b) <= d12]
    pairs.sort(key=lambda p: (G.dim(p[0]) * G.dim(p[1]), p))
    if len(pairs) > n:
        head = pairs[: n // 3]
        rest = pairs[n // 3 :]
        pairs = head + [rest[i] for i in rng.choice(len(rest), n - len(head), replace=False)]
    return pairs


def cost(g, a, b):
    d = GROUPS[g].dim(a) * GROUPS[g].dim(b)
    return {"SU5": 300, "SU4": 80, "SU3": 20, "SO13": 20, "SU2_": 10, "SU2Real": 8}.get(g, 1) * d * d


@prop("C07", "Triples (l1, l2, l3) per group: seeded pairs of labels with bounded d1*d2, every l3 of "
      "the (independently computed) product.")
class Equivariance:
    @staticmethod
    def gen(rng, tier):
        out = []
        for g in specs.ALL_AND_SU5 + ["SU6"] + specs.PRODUCTS:
            for a, b in pairs_for(rng, g, tier):
                for c in sorted(orc.product(g, a, b)):
                    size = GROUPS[g].dim(a) * GROUPS[g].dim(b) * GROUPS[g].dim(list(c))
                    cap = {"SO13": 600, "SU2Real": 1500}.get(g, 10**9)
                    if size > cap * (2 if tier == "thorough" else 1):
                        continue
                    out.append({"g": g, "l": [a, b, list(c)], "s": int(rng.integers(10**6)),
                                "cost": cost(g, a, b)})
        lim = 9000 if tier == "thorough" else 1100
        if len(out) > lim:
            keep = sorted(rng.choice(len(out), lim, replace=False))
            out = [out[i] for i in keep]
        # a few large labels of the fast groups
        for _ in range(60 if tier == "thorough" else 10):
            a, b = int(rng.integers(15, 45)), int(rng.integers(0, 12))
            c = int(rng.choice(range(abs(a - b), a + b + 1, 2)))
            out.append({"g": "SU2", "l": [[a], [b], [c]], "s": 1, "cost": 1})
            a, b = int(rng.integers(8, 22)), int(rng.integers(0, 6))
            c = int(rng.integers(abs(a - b), a + b + 1))
            out.append({"g": "SO3", "l": [[b], [a], [c]], "s": 1, "cost": 1})
        # very large labels: the alternating sums cancel
        for _ in range(30 if tier == "thorough" else 4):
            a, b = (int(x) for x in rng.integers(40, 62, size=2))
            b += (a + b) % 2
            c = int(specs.pick(rng, range(abs(a - b), a + b + 1, 2)))
            c = [c, abs(a - b) + 2 * int(rng.integers(0, 12))][int(rng.integers(2))]
            out.append({"g": "SU2", "l": [[a], [b], [c]], "s": 1, "cost": 10**7})
            a, b = int(rng.integers(100, 300)), int(rng.integers(0, 3))
            c = int(specs.pick(rng, range(abs(a - b), a + b + 1, 2)))
            out.append({"g": "SU2", "l": [[a], [b], [c]] if c % 2 else [[b], [a], [c]], "s": 1, "cost": 10**6})
            a, b, c = (int(x) for x in rng.integers(11, 15, size=3))
            c = min(c, a + b)
            out.append({"g": "SO3", "l": [[a], [b], [c]], "s": 1, "cost": 10**7})
        return out

    @staticmethod
    def run(case, obs):
        g = case["g"]
        G = GROUPS[g]
        a, b, c = (G.make(l) for l in case["l"])
        C = obs.call("clebsch_gordan", lie.clebsch_gordan, a, b, c)
        what = f"CG {g} {case['l']}"
        obs.equal((C.ndim, C.shape[1:]), (4, (a.dim, b.dim, c.dim)), f"{what}: shape")
        obs.check(C.shape[0] >= 1, f"{what}: no path although the product contains the irrep")
        r1, r2, r3 = xh(a), xh(b), xh(c)
        check_equivariance(obs, C, r1, r2, r3, what)
        # finite group elements, through the library's own exponential map
        if case["s"] % 4 == 0 and a.dim * b.dim * c.dim <= 1500:
            rng = np.random.default_rng(case["s"])
            p = rng.normal(size=G.lie_dim) * 0.4
            k = rng.integers(0, 2, size=G.n_h)
            D1, D2, D3 = (obs.call("exp_map", r.exp_map, p, k) for r in (a, b, c))
            left = np.einsum("zijk,lk->zijl", C, D3)
            right = np.einsum("zabk,ai,bj->zijk", C, D1, D2, optimize=True)
            m = [float(np.abs(D).max()) for D in (D1, D2, D3)]
            obs.close(left, right, f"{what}: equivariance under group elements", 1e-7,
                      scale=m[0] * m[1] + m[2])
        obs.check(np.all(np.abs(C).reshape(len(C), -1).max(axis=1) > 1e-3),
                  f"{what}: a path is zero")
        if g in ("SO3", "O3", "SU2Real", "Z2", "SU2", "SL2C", "SU3", "SU4", "SU5", "SU2_"):
            obs.check(not np.iscomplexobj(C), f"{what}: real coefficients")
        # the same array by the class method
        C2 = obs.call("cls.clebsch_gordan", G.cls.clebsch_gordan, a, b, c)
        obs.close(C2, C, f"{what}: reproducible", 1e-9)
        obs.feature(g, C.shape)


@prop("C08", "Pairs (l1, l2) per group: all l3 of the product and seeded l3 outside of it.")
class Completeness:
    @staticmethod
    def gen(rng, tier):
        return [
            {"g": g, "l": [a, b], "s": int(rng.integers(10**6)), "cost": cost(g, a, b)}
            for g in specs.ALL_AND_SU5 + ["SU6"] + specs.PRODUCTS
            for a, b in pairs_for(rng, g, tier)
        ] + [  # several paths in both factors: only these targets
            {"g": "SU3*SU3", "l": [[2, 1, 0] * 2] * 2, "to": [[2, 1, 0] * 2, [0, 0, 0, 2, 1, 0], [2, 1, 0, 3, 0, 0]],
             "s": 1, "cost": 10**6},
            {"g": "SU2*SU3", "l": [[1, 2, 1, 0], [2, 2, 1, 0]], "to": [[1, 2, 1, 0]], "s": 1, "cost": 10**5},
        ] + [  # large labels
            {"g": g, "l": [[int(rng.integers(a, a + 5))], [int(rng.integers(b, b + 3))]], "s": 1, "cost": 10**6}
            for g, a, b in [("SU2", 20, 20), ("SU2", 60, 1), ("SO3", 25, 0), ("SO3", 7, 6)]
            * (4 if tier == "thorough" else 1)
        ]

    @staticmethod
    def run(case, obs):
        g = case["g"]
        G = GROUPS[g]
        a, b = (G.make(l) for l in case["l"])
        want = orc.product(g, *case["l"])
        half = any(specs.is_half(g, l) for l in case["l"])
        rows = []
        if "to" in case:
            half = True
            want = {tuple(l): want[tuple(l)] for l in case["to"]}
        for l3, m in sorted(want.items()):
            c = G.make(list(l3))
            C = obs.call("clebsch_gordan", lie.clebsch_gordan, a, b, c)
            what = f"CG {g} {case['l']}->{l3}"
            obs.equal(C.shape, (m, a.dim, b.dim, c.dim), f"{what}: one path per multiplicity")
            if half:
                obs.equal(orc.rank(C.reshape(m, -1), 1e-6), m, f"{what}: independent paths")
            else:
                rows.append(orthonormal(obs, C, what))
        if not half:
            M = np.concatenate(rows)
            obs.equal(M.shape, (a.dim * b.dim,) * 2, f"{g} {case['l']}: complete")
            obs.close(M @ M.conj().T, np.eye(len(M)), f"{g} {case['l']}: unitary", 1e-8)
        if "to" in case:
            obs.feature(g, "some", a.dim, b.dim)
            return
        # outside of the product: no path
        rng = np.random.default_rng(case["s"])
        cand = [l for l in G.labels(8 if g not in ("SU3", "SU4", "SU5") else 3)
                if tuple(l) not in want and G.dim(l) <= (12 if g in ("SO13", "SU2Real") else 20)]
        if g in ("SU4", "SU5") and a.dim * b.dim > 20:
            cand = []
        for _ in range(min(3, len(cand))):
            c = G.make(specs.pick(rng, cand))
            C = obs.call("clebsch_gordan", lie.clebsch_gordan, a, b, c)
            obs.equal(C.shape, (0, a.dim, b.dim, c.dim), f"CG {g} {case['l']}->{c}: no path")
        obs.feature(g, a.dim, b.dim)


@prop("C09", "Seeded triples of small irreps and of sums of irreps (either side may be the larger one) of all "
      "groups, of products of groups, symmetric groups and groups with several discrete generators, in seeded bases.")
class GenericCG:
    @staticmethod
    def gen(rng, tier):
        n = 60 if tier == "thorough" else 9
        out = []
        for g in ("SU2", "SO3", "O3", "SU2Real", "SL2C", "SO13", "Z2", "SU3", "SU4"):
            ls = [l for l in specs.small_labels(g, 5 if g != "SU3" else 8)
                  if not specs.is_half(g, l)]
            for i in range(n):
                a, b = specs.pick(rng, ls), specs.pick(rng, ls)
                if GROUPS[g].dim(a) * GROUPS[g].dim(b) > 25:
                    continue
                prod = sorted(orc.product(g, a, b))
                prod = [c for c in prod if GROUPS[g].dim(c) * GROUPS[g].dim(a)
                        * GROUPS[g].dim(b) <= 300]
                if i % 5 == 4:
                    c = specs.pick(rng, ls)
                else:
                    if not prod:
                        continue
                    c = list(specs.pick(rng, prod))
                kinds = [["real", "cplx", "unit"], specs.UNITARY, specs.QKINDS][i % 3]
                out.append({"g": g, "l": [a, b, c], "q": [specs.rand_q(rng, kinds)
                                                          for _ in range(3)],
                            "k": [specs.pick(rng, ["gen", "user", "red"]) for _ in range(3)],
                            "cost": (GROUPS[g].dim(a) * GROUPS[g].dim(b) * GROUPS[g].dim(c))})
        # sums of irreps of any size, on either side; other groups
        for i in range(20 * n):
            for _ in range(200):
                if i % 2:
                    g = specs.pick(rng, ["SU2", "SO3", "O3", "SL2C", "SO13", "Z2", "SU2_", "SU3"])
                    sp = [specs.rand_red(rng, g, int(rng.integers(1, m))) for m in (5, 5, 12)]
                    sp = [s if rng.random() < 0.4 else {"k": specs.pick(rng, ["gen", "user"]), "r": s} for s in sp]
                else:
                    fam = specs.rand_family(rng)
                    g = fam[0]
                    sp = [specs.rand_exotic(rng, fam, int(rng.integers(1, m)), maxterms=4) for m in (5, 5, 12)]
                d = np.prod([specs.dim(s) for s in sp])
                # entries of 1e-3 or 1e-5 become the pivots of orthonormal bases and cost as many digits, of the 8 the
                # function insists on
                if d <= 160 and '"near' not in json.dumps(sp) and (i % 3 or specs.dim(sp[2]) > specs.dim(sp[0]) * specs.dim(sp[1])):
                    break
            else:
                continue
            out.append({"g": g, "sp": sp, "cost": int(d) ** 2 // 30})
        return out

    @staticmethod
    def run_sums(case, obs):
        g, sp = case["g"], case["sp"]
        reps, D = [specs.build(s) for s in sp], [specs.dense(s) for s in sp]
        d = [specs.dim(s) for s in sp]
        what = f"generic CG ({', '.join(map(specs.describe, sp))})"
        I1, I2 = np.eye(d[0]), np.eye(d[1])
        Y12 = np.array([np.kron(x, I2) + np.kron(I1, y) for x, y in zip(D[0][1], D[1][1])]
                       + [np.kron(x, y) for x, y in zip(D[0][2], D[1][2])]).reshape(-1, d[0] * d[1], d[0] * d[1])
        Y3 = np.concatenate([D[2][1], D[2][2]])
        m, gap = orc.hom_dim(Y12, Y3, 1e-5)
        if gap < 0.05:
            raise Skip("no clear gap")
        C = obs.call("clebsch_gordan", lie.clebsch_gordan, *reps)
        obs.equal(C.shape, (m, *d), f"{what}: shape and number of paths")
        check_equivariance(obs, C, *[x[1:] for x in D], what, tol=1e-7)
        obs.equal(orc.rank(C.reshape(m, np.prod(d)), 1e-4), m, f"{what}: independent paths")
        obs.feature(g, min(m, 8), d[2] > d[0] * d[1], len(Y3), *[s["k"] for s in sp])

    @staticmethod
    def run(case, obs):
        if "sp" in case:
            return GenericCG.run_sums(case, obs)
        g = case["g"]
        G = GROUPS[g]
        sp = []
        for l, q, k in zip(case["l"], case["q"], case["k"]):
            if k == "red":
                sp.append({"k": "red", "t": [[1, specs.tab(g, *l)]], "q": q})
            else:
                sp.append({"k": k, "r": specs.tab(g, *l), "q": q})
        reps = [specs.build(s) for s in sp]
        C = obs.call("clebsch_gordan", lie.clebsch_gordan, *reps)
        what = f"generic CG {g} {case['l']}"
        m = orc.product(g, *case["l"][:2]).get(tuple(case["l"][2]), 0)
        d = [specs.dim(s) for s in sp]
        obs.equal(C.shape, (m, *d), f"{what}: shape and number of paths")
        check_equivariance(obs, C, *[specs.dense(s)[1:] for s in sp], what, tol=1e-7)
        if m:
            irs = [G.make(l) for l in case["l"]]
            T = obs.call("clebsch_gordan tabulated", lie.clebsch_gordan, *irs)
            q1, q2, q3 = (specs.basis(q, k) for q, k in zip(case["q"], d))
            i1, i2 = np.linalg.inv(q1), np.linalg.inv(q2)
            # v3' = q3 v3 = q3 C(q1^-1 v1', q2^-1 v2')
            W = np.einsum("zabc,ai,bj,kc->zijk", T, i1, i2, q3, optimize=True)
            obs.check(orc.same_span(C.reshape(m, -1), W.reshape(m, -1), 1e-5),
                      f"{what}: spans the transported tabulated coefficients")
        obs.feature(g, m, *[q[0] for q in case["q"]])
