"""C24-C26: reduced tensor products (with permutation symmetries)."""
import itertools

import numpy as np

import lie_nn as lie

from . import orc, specs
from .core import Skip
from .p_reps import GS, content
from .props import prop
from .specs import GROUPS

LETTERS = "ijklmnopqrst"


def letters(rng, n):
    """index letters, upper and lower case ones are different"""
    return LETTERS[:n] if rng.random() < 0.6 else "".join(rng.permutation(list("abijkxyzABIJKXYZ"))[:n])



def power_generators(parts):
    """(X, H) of the tensor product of the dense representations in parts"""
    D = parts[0]
    for p in parts[1:]:
        D = specs.kron_dense(D, p)
    return D[1], D[2]


def judge(obs, out, dense, orthogonal, what, tol=1e-5):
    """equivariance, shapes, independence. Returns the (prod dims, d_out) matrix"""
    dims = tuple((D[1] if len(D[1]) else D[2]).shape[-1] for D in dense)
    d = int(out.rep.dim)
    obs.check(isinstance(out.rep, lie.ReducedRep), f"{what}: output is a ReducedRep")
    obs.equal(out.array.shape, dims + (d,), f"{what}: shape")
    # the list of blocks and the array say the same thing
    obs.equal(len(out.list), len(out.rep.irreps), f"{what}: one block per irrep")
    cur = 0
    for mi, x in zip(out.rep.irreps, out.list):
        obs.equal(x.shape, dims + (mi.mul, mi.rep.dim), f"{what}: shape of a block")
        w = mi.mul * mi.rep.dim
        obs.close(out.array[..., cur : cur + w], x.reshape(dims + (w,)), f"{what}: blocks", 1e-12)
        cur += w
    irs = [mi.rep for mi in out.rep.irreps]
    obs.check(all(not (b < a) and a != b for a, b in zip(irs, irs[1:])),
              f"{what}: irreps sorted and merged")
    B = out.array.reshape(-1, d)
    X, H = power_generators(dense)
    Xo = obs.call("continuous_generators", out.rep.continuous_generators)
    Ho = obs.call("discrete_generators", out.rep.discrete_generators)
    for x, y in zip(np.concatenate([X, H]), np.concatenate([Xo, Ho])):
        obs.close(x.T @ B, B @ y.T, f"{what}: equivariance", tol,
                  scale=float(np.abs(x).max()) * float(np.abs(B).max(initial=0)) * 2)
    sv = np.linalg.svd(B, compute_uv=False)
    obs.check(len(sv) == d and (d == 0 or sv.min() > 1e-3), f"{what}: {d} independent columns")
    if orthogonal:
        obs.close(B.conj().T @ B, np.eye(d), f"{what}: orthonormal columns", tol)
    return B


def projector(dims, group):
    """onto the tensors with T[f0] = s T[f]; group in the closure under composition"""
    n, D = len(dims), int(np.prod(dims))
    E = np.eye(D).reshape(tuple(dims) + (D,))
    P = np.zeros((D, D))
    for s, p in group:
        P = P + s * np.transpose(E, p + (n,)).reshape(D, D)
    return P / len(group)


def formula_group(formula):
    """set of (sign, p): T[i_0..] = sign * T[i_p0, ..] is required"""
    fs = [(-1 if f[0] == "-" else 1, f.strip("-")) for f in formula.split("=")]
    f0 = fs[0][1]
    return f0, orc.perm_group(len(f0), [(s, tuple(f.index(c) for c in f0)) for s, f in fs])


FIXED = ["ij=ji", "ij=-ji", "ijk=jik", "ijk=-jik", "ijk=kji", "ijk=-kji", "ijk=ikj", "ijk=jki",
         "ijk=jik=ikj", "ijk=-jik=-ikj", "ijk=jki=jik", "ijk=-kji=jki", "ijk=ijk", "ij=ij",
         "ijk=-ikj", "ijkl=jikl=ijlk", "ijkl=klij", "ijkl=jkli", "ijkl=-jikl", "ijkl=-jkli",
         "ijkl=jikl=klij", "ijkl=-jikl=-ijlk=klij", "ijkl=lkji", "ijkl=kjil", "ijkl=-ijlk",
         "ijkl=ilkj", "ijkl=-klij", "ijkl=jilk", "ijkl=-jikl=-ikjl=-ijlk", "ijkl=jikl=ikjl=ijlk",
         "ijklm=jiklm=ijlkm", "ijklm=jklmi", "ji=ij", "kij=ijk", "bac=abc", "xyz=-zyx"]


def rand_formula(rng):
    if rng.random() < 0.6:
        return specs.pick(rng, FIXED)
    n = int(rng.integers(2, 5))
    f0 = letters(rng, n)
    parts = ["".join(f0[i] for i in rng.permutation(n))]
    for _ in range(int(rng.integers(1, 3))):
        parts.append(("-" if rng.random() < 0.4 else "")
                     + "".join(f0[i] for i in rng.permutation(n)))
    return "=".join(parts)


def orbits(f0, group):
    out = []
    for i in range(len(f0)):
        o = frozenset(p[i] for _, p in group)
        if o not in out:
            out.append(o)
    return out


def small_red(rng, g, d):
    s = specs.rand_red(rng, g, d, q="no", maxterms=2, maxmul=2)
    if rng.random() < 0.3:
        kinds = specs.UNITARY if rng.random() < 0.5 else specs.QKINDS
        s["q"] = specs.rand_q(rng, kinds)
    return s


def long_formula(rng):
    """many indices, one or two transpositions or a cycle"""
    n = int(rng.integers(6, 12))
    f0 = letters(rng, n)
    parts = [f0]
    for _ in range(int(rng.integers(1, 3))):
        k = int(rng.choice([2, 2, 2, 3]))
        c = rng.choice(n, k, replace=False)
        p = list(f0)
        for i, j in zip(c, np.roll(c, 1)):
            p[i] = f0[j]
        parts.append(("-" if k == 2 and rng.random() < 0.6 else "") + "".join(p))
    return "=".join(parts)


def group_formula(rng, n):
    """few permutations that generate a large group, possibly with signs"""
    f0 = letters(rng, n)
    kind = specs.pick(rng, ["cycle", "cycle", "adjacent", "star", "random", "two cycles", "even"])
    if kind == "cycle":
        gens = [list(range(1, n)) + [0], [1, 0] + list(range(2, n))]
    elif kind == "two cycles":
        gens = [list(range(1, n)) + [0], [0] + list(range(2, n)) + [1]]
    elif kind == "even":
        gens = [[1, 2, 0] + list(range(3, n)), (list(range(1, n)) + [0] if n % 2 else [0] + list(range(2, n)) + [1])]
    elif kind == "random":
        gens = [list(rng.permutation(n)), list(rng.permutation(n))]
    else:
        gens = []
        for i in range(1, n):
            p = list(range(n))
            j = i - 1 if kind == "adjacent" else 0
            p[i], p[j] = p[j], p[i]
            gens.append(p)
    rel = rng.permutation(n)
    inv = np.argsort(rel)
    parts = [f0]
    for p in gens:
        parts.append(("-" if rng.random() < 0.15 else "") + "".join(f0[rel[p[inv[i]]]] for i in range(n)))
    return "=".join(parts)


def valid_case(rng, g, cap, long=False, group=None):
    """a formula and the representations of its indices"""
    for _ in range(400):
        f = group_formula(rng, group) if group else long_formula(rng) if long else rand_formula(rng)
        f0, G = formula_group(f)
        n = len(f0)
        if (-1, tuple(range(n))) in G:
            continue
        md = max(2, int(round(cap ** (1.0 / n))))
        reps = {}
        ones = 0 if rng.random() < 0.5 else 0.5
        for o in orbits(f0, G):
            if long:
                r = small_red(rng, g, 1 if rng.random() < ones and len(o) == 1 else 2)
            else:
                r = small_red(rng, g, md + int(rng.integers(0, 2)))
            for i in o:
                reps[f0[i]] = r
        dims = [specs.dim(reps[c]) for c in f0]
        if np.prod(dims) > cap:
            continue
        # number of free coefficients, counted on the orbits of the multi-indices
        free = 0
        seen = set()
        for x in itertools.product(*map(range, dims)):
            if x in seen:
                continue
            xs = {(s, tuple(x[i] for i in p)) for s, p in G}
            seen |= {y for _, y in xs}
            free += (-1, x) not in xs
        if free == 0:
            continue
        return f, reps, free
    raise Skip("no formula")


CAPS = {"SU2": 130, "SO3": 130, "O3": 130, "SL2C": 130, "Z2": 130, "SU2_": 90, "SU3": 90,
        "SU4": 64, "SO13": 64, "SU2Real": 90}


@prop("C24", "Fixed and random index formulas with 2 to 11 indices and signs, few permutations generating groups of up "
      "to 720 elements (the formulas without a nonzero "
      "solution are excluded), a seeded representation per orbit of indices, all groups, with and "
      "without change of basis; formulas that have to be refused.")
class Reduced:
    @staticmethod
    def gen(rng, tier):
        n = 120 if tier == "thorough" else 30
        out = []
        for g in GS:
            for _ in range(n):
                cap = CAPS[g] * (2 if tier == "thorough" and rng.random() < 0.3 else 1)
                f, reps, free = valid_case(rng, g, cap)
                d = int(np.prod([specs.dim(reps[c]) for c in f.split("=")[0].strip("-")]))
                out.append({"g": g, "f": f, "r": reps, "free": free, "partial":
                            bool(rng.random() < 0.4), "s": int(rng.integers(10**6)),
                            "cost": d * {"SU4": 20, "SO13": 10, "SU3": 3}.get(g, 1)})
        for _ in range(n // 2):
            g = specs.pick(rng, ["SU2", "SU2", "SO3", "O3", "SL2C", "SU2_"])
            f, reps, free = valid_case(rng, g, 520, long=True)
            out.append({"g": g, "f": f, "r": reps, "free": free, "partial": False,
                        "s": int(rng.integers(10**6)), "cost": 300})
        for i in range(2 * n):
            # generated by few permutations
            k = 4 + (i % 3 > 0) + (i % 15 == 1)
            g = specs.pick(rng, ["SU2", "Z2", "O3", "SO3"] if k == 4 else ["SU2", "Z2", "SU2"])
            f, reps, free = valid_case(rng, g, 90, group=k)
            out.append({"g": g, "f": f, "r": reps, "free": free, "partial": bool(rng.random() < 0.2),
                        "s": int(rng.integers(10**6)), "cost": 3000 if k > 5 else 200})
        bad = ["different", "missing", "extra", "letters", "length", "repeat", "keyword", "basis"]
        for i in range(2 * n):
            g = specs.pick(rng, ["SO3", "SU2", "O3", "Z2"])
            out.append({"g": g, "bad": bad[i % len(bad)],
                        "a": specs.rand_red(rng, g, 4, q="no", maxterms=1, maxmul=1),
                        "b": specs.rand_red(rng, g, 4, q="no", maxterms=2, distinct=True)})
        return out

    @staticmethod
    def run(case, obs):
        if "bad" in case:
            return Reduced.run_bad(case, obs)
        f = case["f"]
        f0, G = formula_group(f)
        what = f"rtp({f}, {', '.join(c + '=' + specs.describe(case['r'][c]) for c in f0)})"
        rng = np.random.default_rng(case["s"])
        reps = {c: specs.build(case["r"][c]) for c in f0}  # equal, not identical objects
        if case["partial"]:
            # a representation may be given for one index of an orbit only
            for o in orbits(f0, G):
                o = sorted(o)
                for i in rng.permutation(o)[1:]:
                    if rng.random() < 0.6:
                        reps.pop(f0[i], None)
            if len(orbits(f0, G)) > len(reps):
                raise Skip("")
        for c in list(reps):
            t = case["r"][c]
            if t["q"] is None and len(t["t"]) == 1 and not case["partial"]:
                # the simpler types are accepted too
                reps[c] = (reps[c].irreps[0].rep if t["t"][0][0] == 1 and rng.random() < 0.5
                           else reps[c].irreps[0])
        kw = {} if rng.random() < 0.7 else {"epsilon": 10.0 ** -int(rng.integers(4, 8))}
        out = obs.call("reduced_tensor_product_basis", lie.reduced_tensor_product_basis, f, **kw, **reps)
        dense = [specs.dense(case["r"][c]) for c in f0]
        qs = [case["r"][c]["q"] for c in f0]
        B = judge(obs, out, dense, all(q is None for q in qs), what)
        obs.equal(B.shape[1], case["free"], f"{what}: number of components")
        P = projector([specs.dim(case["r"][c]) for c in f0], G)
        obs.equal(int(round(np.trace(P))), case["free"], "oracle")
        obs.close(P @ B, B, f"{what}: symmetry under the permutations", 1e-5)
        obs.feature(case["g"], len(f0), len(G), min(x for x, _ in G), any(q for q in qs))

    @staticmethod
    def run_bad(case, obs):
        a, b = specs.build(case["a"]), specs.build(case["b"])
        bad = case["bad"]
        R = lie.reduced_tensor_product_basis

        def refuse(exc, f, **kw):
            obs.raises(f"rtp({f})", R, f, exc=exc, **kw)

        if bad == "different":
            if case["a"]["t"] == case["b"]["t"]:
                raise Skip("same irreps")
            refuse(RuntimeError, "ij=ji", i=a, j=b)
            refuse(RuntimeError, "ijk=-jik", i=b, j=a, k=a)
            refuse(RuntimeError, "ijk=jki", i=b, k=a)
        elif bad == "basis":
            d = a.dim
            if d < 2:
                raise Skip("")
            c = lie.change_basis(a, specs.basis(["cplx", 5], d))
            refuse(RuntimeError, "ij=ji", i=a, j=c)
            refuse(RuntimeError, "ijk=-kji", i=c, k=a, j=a)
            Q = np.array(c.Q)
            Q[int(d / 2), 0] *= 1.001
            for q in (specs.basis(["orth", 6], d), Q, np.real(Q)):
                e = lie.change_basis(a, q)
                refuse(RuntimeError, "ij=ji", i=c, j=e)
                refuse(RuntimeError, "ijk=kji", i=e, j=a, k=c)
                refuse(RuntimeError, "ijk=-ikj", i=e, j=c, k=e)
        elif bad == "missing":
            refuse(RuntimeError, "ijk=jik", i=a)
            refuse(RuntimeError, "ij=ij", i=a)
        elif bad == "extra":
            refuse(RuntimeError, "ij=ji", i=a, k=a)
        elif bad == "letters":
            refuse(RuntimeError, "ijk=ijl", i=a, j=a, k=a)
        elif bad == "length":
            refuse(RuntimeError, "ijk=ji", i=a, j=a, k=a)
        elif bad == "repeat":
            refuse(RuntimeError, "iij=iji", i=a, j=a)
        else:
            refuse(TypeError, "ij=ji", i=a, ab=a)
        obs.feature(case["g"], bad)


@prop("C25", "Representations of all groups, with and without change of basis, orders 1 to 6 with bounded "
      "dimension.")
class Symmetric:
    @staticmethod
    def gen(rng, tier):
        n = 40 if tier == "thorough" else 10
        out = []
        for g in GS:
            for order in (1, 2, 3, 4, 5):
                for _ in range(n):
                    md = {1: 8, 2: 7, 3: 5, 4: 3, 5: 2}[order]
                    r = small_red(rng, g, md)
                    d = specs.dim(r)
                    if d**order > CAPS[g] * (1 if tier == "quick" else 2):
                        continue
                    out.append({"g": g, "r": r, "n": order,
                                "cost": d**order * {"SU4": 20, "SO13": 10, "SU3": 3}.get(g, 1)})
        for g in ("SU2", "Z2", "O3", "SU2_"):
            for _ in range(max(1, n // 10)):
                out.append({"g": g, "r": small_red(rng, g, 2), "n": 6, "cost": 2000})
        # bases close to the canonical one
        for _ in range(n):
            for t, order in (([[2, {"g": "SU2", "k": "tab", "l": [0]}]], 6), ([[1, {"g": "SU2", "k": "tab", "l": [1]}]], 5),
                             ([[1, {"g": "SU2", "k": "tab", "l": [0]}], [1, {"g": "SU2", "k": "tab", "l": [1]}]], 3)):
                r = {"g": "SU2", "k": "red", "t": t, "q": ["near", int(rng.integers(10**6))]}
                out.append({"g": "SU2", "r": r, "n": order, "cost": 500})
        # orders for which the antisymmetric tensor of the same order exists
        for g in ("SU2", "SO3", "O3", "Z2", "SL2C"):
            for order, d in ((4, 4), (5, 3)) if g != "Z2" else ((4, 4), (4, 5), (5, 3)):
                for _ in range(max(1, n // 10)):
                    for _ in range(50):
                        r = small_red(rng, g, d)
                        if specs.dim(r) == d:
                            out.append({"g": g, "r": r, "n": order, "cost": 3 * d**order})
                            break
        return out

    @staticmethod
    def run(case, obs):
        r, n = specs.build(case["r"]), case["n"]
        D = specs.dense(case["r"])
        d = specs.dim(case["r"])
        what = f"symmetric_rtp({specs.describe(case['r'])}, {n})"
        out = obs.call("reduced_symmetric_tensor_product_basis",
                       lie.reduced_symmetric_tensor_product_basis, r, n,
                       **({"epsilon": 10.0 ** -(4 + d % 4)} if n % 2 else {}))
        B = judge(obs, out, [D] * n, case["r"]["q"] is None, what)
        from math import comb

        obs.equal(B.shape[1], comb(d + n - 1, n), f"{what}: number of components")
        T = out.array
        for i in range(n - 1):
            obs.close(np.swapaxes(T, i, i + 1), T, f"{what}: symmetric in indices {i},{i+1}", 1e-5)
        if n >= 2 and d**n <= 40:
            f0 = LETTERS[:n]
            f = "=".join([f0] + [f0[:i] + f0[i + 1] + f0[i] + f0[i + 2 :] for i in range(n - 1)])
            o2 = obs.call("reduced_tensor_product_basis", lie.reduced_tensor_product_basis, f,
                          **{c: r for c in f0})
            obs.check(orc.same_span(o2.array.reshape(-1, B.shape[1]).T, B.T, 1e-4),
                      f"{what}: same space as the formula {f}")
            obs.equal({str(k): m for m, k in content(o2.rep)},
                      {str(k): m for m, k in content(out.rep)}, f"{what}: same irreps as {f}")
        obs.feature(case["g"], n, bool(case["r"]["q"]), len(case["r"]["t"]))


@prop("C26", "Lists of one to four representations of all groups, with and without change of basis, "
      "tabulated, multiple and reduced.")
class ListForm:
    @staticmethod
    def gen(rng, tier):
        n = 120 if tier == "thorough" else 30
        out = []
        for g in GS:
            for i in range(n):
                k = [2, 3, 2, 4, 1, 3][i % 6]
                for _ in range(50):
                    rs = [small_red(rng, g, {1: 9, 2: 9, 3: 5, 4: 3}[k]) for _ in range(k)]
                    d = int(np.prod([specs.dim(r) for r in rs]))
                    if d <= CAPS[g]:
                        out.append({"g": g, "r": rs, "s": int(rng.integers(10**6)),
                                    "cost": d * {"SU4": 20, "SO13": 10, "SU3": 3}.get(g, 1)})
                        break
        # large multiplicities
        for i in range(n):
            g = specs.pick(rng, ["SU2", "SO3", "O3", "Z2", "SL2C", "SU2Real", "SU2_", "SU3"])
            ls = specs.small_labels(g, 3)
            rs = []
            for _ in range(int(rng.integers(1, 3))):
                rs.append({"k": "red", "t": [[int(rng.integers(7, 33)), specs.tab(g, *specs.pick(rng, ls))]],
                           "q": specs.rand_q(rng) if rng.random() < 0.1 else None})
            if len(rs) == 2:
                rs[int(rng.integers(2))] = {"k": "red", "t": [[1, specs.tab(g, *specs.pick(rng, ls))]], "q": None}
            d = int(np.prod([specs.dim(r) for r in rs]))
            if d <= 64:
                out.append({"g": g, "r": rs, "s": int(rng.integers(10**6)), "cost": d})
        return out

    @staticmethod
    def run(case, obs):
        rng = np.random.default_rng(case["s"])
        rs = []
        for t in case["r"]:
            r = specs.build(t)
            if t["q"] is None and len(t["t"]) == 1 and rng.random() < 0.6:
                r = r.irreps[0].rep if t["t"][0][0] == 1 and rng.random() < 0.7 else r.irreps[0]
            rs.append(r)
        if rng.random() < 0.5:
            rs = tuple(rs)
        what = f"rtp([{', '.join(map(specs.describe, case['r']))}])"
        kw = {} if rng.random() < 0.7 else {"epsilon": 10.0 ** -int(rng.integers(4, 8))}
        out = obs.call("reduced_tensor_product_basis", lie.reduced_tensor_product_basis, rs, **kw)
        dense = [specs.dense(t) for t in case["r"]]
        B = judge(obs, out, dense, all(t["q"] is None for t in case["r"]), what)
        obs.equal(B.shape[0], B.shape[1], f"{what}: complete")
        want = {(): 1}
        terms = None
        for t in case["r"]:
            m = {}
            for k, r in t["t"]:
                m[tuple(r["l"])] = m.get(tuple(r["l"]), 0) + k
            if terms is None:
                terms = m
                continue
            new = {}
            for l1, m1 in terms.items():
                for l2, m2 in m.items():
                    for l3, m3 in orc.product(case["g"], l1, l2).items():
                        new[l3] = new.get(l3, 0) + m1 * m2 * m3
            terms = new
        got = {}
        for m, r in content(out.rep):
            l = tuple(GROUPS[case["g"]].label(r))
            got[l] = got.get(l, 0) + m
        obs.equal({l: m for l, m in got.items() if m}, {l: m for l, m in terms.items() if m},
                  f"{what}: irreps")
        obs.feature(case["g"], len(rs), any(t["q"] for t in case["r"]), type(rs).__name__)
