"""C27-C33: linear algebra and numerical helpers (lie_nn.util)."""
import itertools
import math
from fractions import Fraction

import numpy as np

import lie_nn as lie
from lie_nn import util

from . import orc, specs
from .core import Skip
from .p_infer import yy
from .p_reps import GS
from .props import prop


def conditioned(rng, m, n, cplx, lo=0.5, hi=1.6):
    """m x n with singular values in [lo, hi]"""
    k = min(m, n)
    u = specs._haar(rng, m, cplx)[:, :k]
    v = specs._haar(rng, n, cplx)[:k]
    return (u * rng.uniform(lo, hi, size=k)) @ v


def low_rank(rng, m, n, r, cplx):
    """m x n of rank r, nonzero singular values of order one"""
    if r == 0:
        return np.zeros((m, n), dtype=complex if cplx else float)
    u = specs._haar(rng, m, cplx)[:, :r]
    v = specs._haar(rng, n, cplx)[:r]
    return (u * rng.uniform(0.5, 1.6, size=r)) @ v


def sparse_ints(rng, m, n, cplx):
    a = rng.integers(-2, 3, size=(m, n)) * (rng.random((m, n)) < 0.5)
    b = a.astype(float)
    if cplx:
        b = b + 1j * (rng.integers(-1, 2, size=(m, n)) * (rng.random((m, n)) < 0.3))
    return b


def phases(rng, n, mode):
    """n complex numbers of modulus one that are nearly or mostly real"""
    if mode == "tiny":
        t = rng.normal(size=n) * 10 ** rng.uniform(-5, -1)
    elif mode == "few":
        t = rng.uniform(-3, 3, size=n) * (rng.random(n) < 1.5 / n)
    elif mode == "quarters":
        t = rng.integers(0, 4, size=n) * (np.pi / 2)
    else:  # "signs": complex numbers with vanishing imaginary part
        t = np.zeros(n)
    return np.exp(1j * t)


MODES = ["tiny", "tiny", "few", "quarters", "signs"]


def matrix(case):
    if case.get("ph"):
        rng = np.random.default_rng([case["s"], 5])
        A = matrix(dict(case, ph=None, c=False))
        D1 = phases(rng, len(A), case["ph"]) if rng.random() < 0.5 else np.ones(len(A))
        return D1[:, None] * A * phases(rng, A.shape[1], case["ph"])
    rng = np.random.default_rng(case["s"])
    m, n, cplx = case["m"], case["n"], case["c"]
    if case["kind"] == "rank":
        return low_rank(rng, m, n, min(case["r"], m, n), cplx)
    if case["kind"] == "ints":
        return sparse_ints(rng, m, n, cplx)
    if case["kind"] == "dup":
        a = low_rank(rng, m, n, min(m, n), cplx)
        for _ in range(case["r"]):
            i, j = rng.integers(m, size=2)
            a[i] = a[j] * rng.choice([1.0, -1.0, 0.0, 2.0])
        return a
    raise ValueError


def gap_ok(A, eps=1e-3):
    """the rank is numerically clear"""
    if A.size == 0:
        return True
    s = np.linalg.svd(A, compute_uv=False)
    s = s[s > 1e-10]
    return len(s) == 0 or s.min() > 0.05


def rand_matrix_case(rng, nmax=12):
    m, n = int(rng.integers(1, nmax + 1)), int(rng.integers(1, nmax + 1))
    return {"m": m, "n": n, "c": bool(rng.integers(2)), "s": int(rng.integers(10**8)),
            "kind": specs.pick(rng, ["rank", "ints", "dup"]), "r": int(rng.integers(0, nmax)),
            "ph": specs.pick(rng, MODES) if rng.random() < 0.4 else None}


def orthonormal_rows(obs, X, what, tol=1e-8):
    obs.close(X @ X.conj().T, np.eye(len(X)), f"{what}: orthonormal rows", tol)


@prop("C27", "Seeded real and complex matrices with a clear rank (prescribed rank, small integers, "
      "repeated or zero rows), whole and cut into sequences of blocks.")
class Nullspace:
    @staticmethod
    def gen(rng, tier):
        n = 6000 if tier == "thorough" else 900
        out = []
        for _ in range(n):
            c = rand_matrix_case(rng, int(rng.choice([4, 8, 12, 24])))
            c["cuts"] = sorted({int(rng.integers(0, c["m"] + 1)) for _ in range(3)})
            out.append(c)
        return out + [{"eps": 1, "n": int(rng.integers(2, 9)), "c": bool(rng.integers(2)), "s": int(rng.integers(10**8))}
                      for _ in range(n // 3)]

    @staticmethod
    def epsilon(case, obs):
        """the tolerance given by the caller separates small numbers from smaller ones"""
        rng = np.random.default_rng(case["s"])
        n = case["n"]
        V = conditioned(rng, n, n, case["c"], 1, 1)
        V = np.linalg.qr(V)[0]
        s = 10.0 ** rng.uniform(-5, -1)  # the smaller singular values
        kinds = rng.integers(0, 3, size=n)  # large, small, zero
        kinds[0] = 0
        sv = np.array([rng.uniform(0.5, 2), s, 0.0])[kinds] * rng.uniform(1, 1.5, size=n)
        counted = bool(rng.integers(2))
        eps = s**2 * (1e-2 if counted else 1e2)
        big = kinds <= (1 if counted else 0)
        if eps > 1e-2 or (s < 2e-5 and counted):
            raise Skip("")
        rows = sv[:, None] * V
        what = f"kernel, singular values {sv.tolist()}, epsilon {eps:.2g}"
        A = np.linalg.qr(rng.normal(size=(n, n)))[0] @ rows
        for X in (obs.call("nullspace", util.nullspace, A, epsilon=eps),
                  obs.call("sequential_nullspace", util.sequential_nullspace,
                           iter([rows[i : i + 1] for i in rng.permutation(n)]), int(n - big.sum()), epsilon=eps)):
            obs.equal(X.shape, (int(n - big.sum()), n), what)
            orthonormal_rows(obs, X, what)
            obs.zero(V[big] @ X.T, what, 1e-5 if s > 2e-4 else 1e-3)
        obs.feature("epsilon", counted, round(np.log10(s)))

    @staticmethod
    def run(case, obs):
        if case.get("eps"):
            return Nullspace.epsilon(case, obs)
        A = matrix(case)
        if not gap_ok(A):
            raise Skip("no clear rank")
        m, n = A.shape
        r = orc.rank(A, 1e-6)
        what = f"nullspace of a {m}x{n} matrix of rank {r}"
        X = obs.call("nullspace", util.nullspace, A)
        obs.equal(X.shape, (n - r, n), what)
        obs.zero(A @ X.T, f"{what}: A X^T = 0", 1e-7)
        orthonormal_rows(obs, X, what)
        # the same matrix as a sequence of blocks
        cuts = [0] + case["cuts"] + [m]
        blocks = [A[i:j] for i, j in zip(cuts, cuts[1:]) if j > i]
        if all(gap_ok(np.concatenate(blocks[: i + 1])) for i in range(len(blocks))):
            S = obs.call("sequential_nullspace", util.sequential_nullspace, iter(blocks), n - r)
            obs.equal(S.shape, (n - r, n), f"sequential {what}")
            obs.zero(A @ S.T, f"sequential {what}: A S^T = 0", 1e-6)
            orthonormal_rows(obs, S, f"sequential {what}", 1e-6)
            if n - r > 0:
                obs.raises("sequential_nullspace", util.sequential_nullspace, iter(blocks),
                           n - r - 1, exc=ValueError)
        obs.feature(case["kind"], case["c"], case["ph"], min(r, 6), min(n - r, 6), m > n, len(blocks))


@prop("C28", "Seeded real and complex matrices with a clear rank profile (every leading block of rows), "
      "rank-deficient, square, wide and tall.")
class GramSchmidt:
    @staticmethod
    def gen(rng, tier):
        n = 6000 if tier == "thorough" else 900
        return [rand_matrix_case(rng, int(rng.choice([3, 6, 10, 20]))) for _ in range(n)] + \
            [{"eps": 1, "n": int(rng.integers(2, 9)), "c": bool(rng.integers(2)), "s": int(rng.integers(10**8))}
             for _ in range(n // 3)]

    @staticmethod
    def epsilon(case, obs):
        """the tolerance given by the caller separates small residuals from smaller ones"""
        rng = np.random.default_rng(case["s"])
        n = case["n"]
        V = np.linalg.qr(conditioned(rng, n, n, case["c"], 1, 1))[0]
        k = int(rng.integers(1, n))
        s = 10.0 ** rng.uniform(-6, -2)
        A = np.concatenate([V[:k], rng.normal(size=(1, k)) @ V[:k] + s * V[k : k + 1]])
        counted = bool(rng.integers(2))
        eps = s * (1e-2 if counted else 10)
        if eps < 1e-6:
            raise Skip("")
        r = k + counted
        what = f"{k} rows and a residual of {s:.2g}, epsilon {eps:.2g}"
        Q = obs.call("gram_schmidt", util.gram_schmidt, A, epsilon=eps)
        obs.equal(Q.shape, (r, n), f"gram_schmidt, {what}")
        orthonormal_rows(obs, Q, what)
        obs.check(orc.same_span(Q, V[:r], 1e-6), f"gram_schmidt, {what}: span")
        B = obs.call("extend_basis", util.extend_basis, A, epsilon=eps)
        E = obs.call("extend_basis", util.extend_basis, A, epsilon=eps, returns="E")
        obs.equal((B.shape, E.shape), ((n, n), (n - r, n)), f"extend_basis, {what}")
        obs.close(B, np.concatenate([Q, E]), f"extend_basis, {what}", 1e-9)
        obs.close(B @ B.conj().T, np.eye(n), f"extend_basis, {what}: orthonormal", 1e-5)
        obs.feature("epsilon", counted, round(np.log10(s)))

    @staticmethod
    def run(case, obs):
        if case.get("eps"):
            return GramSchmidt.epsilon(case, obs)
        A = matrix(case)
        m, n = A.shape
        # rows with a residual that is neither zero nor clearly nonzero are out of the domain
        ranks = []
        for i in range(m):
            if not gap_ok(A[: i + 1]):
                raise Skip("no clear rank profile")
            ranks.append(orc.rank(A[: i + 1], 1e-6))
        r = ranks[-1]
        what = f"gram_schmidt of a {m}x{n} matrix of rank {r}"
        Q = obs.call("gram_schmidt", util.gram_schmidt, A)
        obs.equal(Q.shape, (r, n), what)
        orthonormal_rows(obs, Q, what)
        for i in range(m):
            k = ranks[i]
            # row i in the span of the first k vectors
            c = A[i] @ Q[:k].conj().T
            obs.close(c @ Q[:k], A[i], f"{what}: row {i} in the span of the first {k} vectors", 1e-7)
        B = obs.call("extend_basis", util.extend_basis, A)
        obs.equal(B.shape, (n, n), f"extend_basis({what})")
        orthonormal_rows(obs, B, f"extend_basis({what})", 1e-7)
        obs.close(B[:r], Q, f"extend_basis({what}): starts with the given span", 1e-9)
        E = obs.call("extend_basis", util.extend_basis, A, returns="E")
        obs.equal(E.shape, (n - r, n), f"extend_basis({what}, E)")
        obs.zero(E @ Q.conj().T, f"extend_basis({what}, E): orthogonal to the rows", 1e-8)
        obs.close(np.concatenate([Q, E]), B, f"extend_basis({what}): Q = A-part + E", 1e-9)
        obs.feature(case["kind"], case["c"], case["ph"], min(r, 6), min(n - r, 6), min(m - r, 3))


@prop("C29", "Pairs of seeded real and complex bases of subspaces with a prescribed intersection, in "
      "different well conditioned bases and tensor shapes.")
class BasisIntersection:
    @staticmethod
    def gen(rng, tier):
        n = 5000 if tier == "thorough" else 800
        out = []
        for _ in range(n):
            k = int(rng.integers(0, 4))
            a, b = int(rng.integers(0, 4)), int(rng.integers(0, 4))
            if k + a == 0 or k + b == 0:
                continue
            n_ = k + a + b + int(rng.integers(0, 4))
            out.append({"k": k, "a": a, "b": b, "n": n_, "c": bool(rng.integers(2)),
                        "t": bool(rng.integers(2)), "s": int(rng.integers(10**8)),
                        "sparse": bool(rng.integers(2)),
                        "mix": int(rng.integers(0, 7)), "ph": specs.pick(rng, MODES)})
        return out + [{"eps": 1, "n": int(rng.integers(2, 9)), "c": bool(rng.integers(2)), "s": int(rng.integers(10**8))}
                      for _ in range(n // 3)]

    @staticmethod
    def epsilon(case, obs):
        """subspaces that meet at a small angle"""
        rng = np.random.default_rng(case["s"])
        n = case["n"]
        V = np.linalg.qr(conditioned(rng, n, n, case["c"], 1, 1))[0]
        k = int(rng.integers(0, n - 1))  # common directions
        t = 10.0 ** rng.uniform(*((-4, -1) if rng.integers(2) else (-1.5, -0.8)))
        counted = bool(rng.integers(2))
        eps = t**2 * (1e-2 if counted else 1e2)
        if eps > 1e-2:
            raise Skip("")
        b1 = V[: k + 1]
        b2 = np.concatenate([V[:k], np.cos(t) * V[k : k + 1] + np.sin(t) * V[k + 1 : k + 2]])
        mix = [np.linalg.qr(conditioned(rng, k + 1, k + 1, case["c"], 1, 1))[0] for _ in range(2)]
        kw = {"epsilon": eps}
        if counted and t >= 0.03 and rng.integers(2):
            kw, eps = {}, 1e-5  # the default
        P1, P2 = obs.call("basis_intersection", util.basis_intersection, mix[0] @ b1, mix[1] @ b2, **kw)
        r = k if counted else k + 1
        what = f"spaces meeting in {k} dimensions and at an angle of {t:.2g}, epsilon {eps:.2g}"
        obs.equal((P1.shape, P2.shape), ((r, k + 1), (r, k + 1)), what)
        if r:
            C = P1 @ mix[0] @ b1
            obs.zero(C - C @ V[:r].conj().T @ V[:r], what, 1e-4 if counted else 2 * t)
            orthonormal_rows(obs, P1, what, 1e-5)
            orthonormal_rows(obs, P2, what, 1e-5)
        obs.feature("epsilon" if kw else "default", counted, round(np.log10(t)))

    @staticmethod
    def run(case, obs):
        if case.get("eps"):
            return BasisIntersection.epsilon(case, obs)
        rng = np.random.default_rng(case["s"])
        k, a, b, n, cplx = (case[x] for x in "kabnc")
        mix = case["mix"]
        c1 = c2 = cE = cplx
        if mix in (1, 2, 3):  # real and complex arrays together
            cE, c1, c2 = False, mix == 1, mix == 2
        if case["sparse"]:
            E = np.eye(n)[rng.permutation(n)].astype(complex if cE else float)
            if cE:
                E = E * np.exp(1j * rng.integers(0, 4, size=(n, 1)) * np.pi / 2)
        else:
            E = conditioned(rng, n, n, cE, 0.8, 1.3)
        common, ea, eb = E[:k], E[k : k + a], E[k + a : k + a + b]
        if mix in (1, 2) and a + b:  # the rest of one of the spaces is complex
            F = conditioned(rng, a + b, a + b, True, 0.8, 1.3) @ E[k : k + a + b]
            if mix == 1 and b == 0:
                ea = F
            elif mix == 2 and a == 0:
                eb = F
            elif a and b:  # a generic complex vector added to a vector outside of the other space
                if mix == 1:
                    ea = ea + 0.4j * rng.normal(size=(a, b)) @ eb
                else:
                    eb = eb + 0.4j * rng.normal(size=(b, a)) @ ea
        b1 = conditioned(rng, k + a, k + a, c1, 0.7, 1.4) @ np.concatenate([common, ea])
        b2 = conditioned(rng, k + b, k + b, c2, 0.7, 1.4) @ np.concatenate([common, eb])
        if mix in (4, 5) and not cplx:  # nearly real
            D = phases(rng, n, case["ph"])
            b1, b2, common = b1 * D, b2 * D, common * D
            if mix == 5:
                b1 = phases(rng, k + a, case["ph"])[:, None] * b1
        what = f"intersection of {k + a} and {k + b} dimensional spaces"
        s1, s2 = b1, b2
        if case["t"] and n % 2 == 0:
            s1, s2 = b1.reshape(-1, 2, n // 2), b2.reshape(-1, 2, n // 2)
        P1, P2 = obs.call("basis_intersection", util.basis_intersection, s1, s2)
        obs.equal((P1.shape, P2.shape), ((k, k + a), (k, k + b)), what)
        if k:
            v1, v2 = P1 @ b1, P2 @ b2
            obs.check(orc.same_span(v1, common, 1e-6), f"{what}: first projection")
            obs.check(orc.same_span(v2, common, 1e-6), f"{what}: second projection")
            orthonormal_rows(obs, P1, what)
            orthonormal_rows(obs, P2, what)
        obs.feature(k, a, b, cplx, case["t"], mix)


@prop("C30", "Seeded rationals and square roots of rationals with rounding noise, general reals, "
      "special values, arrays of all shapes, real and complex; fractions against the fractions module.")
class Rounding:
    @staticmethod
    def gen(rng, tier):
        n = 1500 if tier == "thorough" else 250
        return [{"m": m, "s": int(rng.integers(10**8)),
                 "maxq": int(rng.choice([8, 60, 400, 2000])),
                 "noise": float(rng.choice([0, 1e-16, 1e-14]))}
                for m in ("sqrt", "limit", "ratio", "real", "sympy") for _ in range(n)]

    @staticmethod
    def run(case, obs):
        rng = np.random.default_rng(case["s"])
        m = case["m"]
        shape = specs.pick(rng, [(60,), (5, 7), (2, 3, 4), (), (1,)])
        size = int(np.prod(shape))
        if m in ("sqrt", "sympy"):
            q = rng.integers(1, case["maxq"] + 1, size=shape)
            p = rng.integers(0, np.maximum(1, (q * specs.pick(rng, [1, 1, 4, 50]))) + 1, size=shape)
            sg = rng.choice([-1.0, 1.0], size=shape)
            x = sg * np.sqrt(p / q)
        if m == "sqrt":
            noisy = x + case["noise"] * rng.uniform(-1, 1, size=shape)
            y = obs.call("round_to_sqrt_rational", util.round_to_sqrt_rational, noisy)
            obs.close(np.asarray(y), x, "sqrt of a rational is recovered", 3e-15)
            # absolute sharpness: the noise has gone
            big = np.abs(x) > 1
            e = np.abs(np.asarray(y) - x) / np.where(big, np.abs(x), 1.0)
            obs.check(np.all(e < 5e-16 + (1e-15 if case["noise"] else 0.0)), "noise is removed")
            z = obs.call("round_to_sqrt_rational", util.round_to_sqrt_rational, y)
            obs.close(np.asarray(z), np.asarray(y), "idempotent", 3e-15)
            w = x + 1j * np.roll(x.reshape(-1), 1).reshape(shape)
            how = int(rng.integers(0, 5))
            if how in (1, 2, 3):  # small imaginary or real parts, everywhere or somewhere
                t = np.sqrt(rng.integers(0, 6, size=shape) / rng.integers(10**3, 10**7, size=shape))
                t = np.where(t < 2.5e-4, 0.0, t)
                w = [None, x + 1j * t, t + 1j * x, np.where(rng.random(shape) < 0.7, x + 0j, x - 1j * t)][how]
            elif how == 4:
                w = np.where(rng.random(shape) < 0.1, w, x + 0j)
            v = obs.call("round_to_sqrt_rational", util.round_to_sqrt_rational,
                         w + case["noise"] * (0.3 + 0.2j))
            obs.close(np.asarray(v), w, "complex numbers part by part", 3e-15)
            # the largest denominator of the squares, given by the caller
            mx = int(specs.pick(rng, [4, 16, 100, 1000]))
            w = rng.uniform(0.3, 1, size=shape) * sg + 1j * rng.uniform(0.3, 1, size=shape) * np.roll(sg.reshape(-1), 1).reshape(shape)
            for z in (w, w.real.copy(), w.real + 0j, 1j * w.imag):
                v = np.asarray(obs.call("round_to_sqrt_rational", util.round_to_sqrt_rational, z, mx))
                obs.equal(v.shape, shape, "shape")
                for part in (np.real, np.imag):
                    got, given = np.ravel(part(v)), np.ravel(part(z))
                    want = [np.sign(t) * math.sqrt(Fraction(float(t) ** 2).limit_denominator(mx**2 + 1)) for t in given]
                    e = np.abs(got**2 - np.square(want))
                    # (the square is approximated by a fraction first, which may break a tie)
                    other = np.abs(np.abs(got**2 - given**2) - np.abs(np.square(want) - given**2))
                    obs.check(np.all((e < 1e-12) | (other < 1e-11)), f"closest square with denominators up to {mx}")
            obs.feature("sqrt", case["maxq"], case["noise"], len(shape))
        elif m == "real":
            x = rng.normal(size=shape) * specs.pick(rng, [1.0, 1e-3, 30.0])
            y = np.asarray(obs.call("round_to_sqrt_rational", util.round_to_sqrt_rational, x))
            obs.equal(y.shape, shape, "shape")
            e = np.abs(y**2 - x**2) / np.maximum(1, np.abs(x) ** 2) ** 2
            obs.check(np.all(e < 1.3e-7), "rounding moves a square by at most 2/4096^2")
            obs.check(np.all(y * x >= 0), "sign")
            for t in (0.0, -0.0, 1e-17, -3e-19, 1.0, -1.0, 0.5, 2.0):
                y = float(util.round_to_sqrt_rational(t))
                obs.check(abs(y - t) < 1e-15, f"special value {t}")
            obs.equal(float(util.round_to_sqrt_rational(1e-17)), 0.0, "noise around zero")
            obs.feature("real", len(shape))
        elif m == "limit":
            d = rng.integers(1, 10**6, size=200)
            n = rng.integers(-(10**6), 10**6, size=200)
            mx = int(specs.pick(rng, [1, 2, 5, 10, 100, 1000, 4096, 10**5, 10**6]))
            d[:20] = mx  # the boundary
            d[20:30] = mx + 1
            g = np.gcd(n, d)
            n, d = n // g, d // g
            n2, d2 = obs.call("limit_denominator", util.limit_denominator, n, d, mx)
            want = [Fraction(int(a), int(b)).limit_denominator(mx) for a, b in zip(n, d)]
            obs.check(all((int(a), int(b)) == (f.numerator, f.denominator)
                          for a, b, f in zip(n2, d2, want)),
                      f"limit_denominator({mx}) is the closest fraction")
            obs.feature("limit", mx)
        elif m == "ratio":
            x = specs.pick(rng, [rng.uniform(-1, 1, size=shape), rng.normal(size=shape) * 100,
                                 np.asarray(rng.integers(-50, 50, size=shape), dtype=float),
                                 np.asarray(rng.integers(-50, 50, size=shape) / 64.0)])
            x = np.where(np.abs(x) < 1e-4, 0.25, x)
            n, d = obs.call("as_approx_integer_ratio", util.as_approx_integer_ratio, x)
            obs.check(np.all(d > 0) and np.all(np.gcd(n, d) == 1), "normalised fractions")
            obs.check(np.all(np.abs(n / d - x) <= 1e-13 * np.maximum(1, np.abs(x))), "n/d = x")
            obs.feature("ratio", len(shape))
        else:
            import sympy as sp

            for i in range(min(size, 4)):
                t = float(np.asarray(x).reshape(-1)[i])
                if t == 0:
                    continue
                P, Q = int(np.asarray(p).reshape(-1)[i]), int(np.asarray(q).reshape(-1)[i])
                y = util.round_to_sqrt_rational_sympy(t, 4096)
                obs.check(sp.simplify(y**2 - sp.Rational(P, Q)) == 0, f"exact square of {t}")
                obs.check(abs(complex(y) - t) < 1e-12, f"value of {t}")
                z = complex(util.round_to_sqrt_rational_sympy(t + 0.5j, 4096))
                obs.check(abs(z - (t + 0.5j)) < 1e-12, "complex value")
                mx = int(specs.pick(rng, [4, 16, 100]))
                a, b = (float(x) for x in rng.uniform(0.3, 1, size=2))
                y = util.round_to_sqrt_rational_sympy(a - 1j * b, mx)
                for got, given in ((sp.re(y), a), (-sp.im(y), b)):
                    f = float(got) ** 2
                    best = Fraction(given**2).limit_denominator(mx**2 + 1)
                    obs.check(abs(abs(f - given**2) - abs(float(best) - given**2)) < 1e-11,
                              f"closest square with denominators up to {mx}")
            obs.feature("sympy", case["maxq"])


@prop("C31", "Generators of the tabulated irreps of 9 groups and sums, in seeded bases of the space and "
      "of the algebra; perturbed generators; random matrices that do not close.")
class InferAlgebra:
    @staticmethod
    def gen(rng, tier):
        n = 60 if tier == "thorough" else 12
        out = []
        for g in GS:
            if g == "Z2":
                continue
            for i in range(n):
                md = 10 if g not in ("SU4",) else 6
                t = [l for l in specs.small_labels(g, md, 4) if specs.GROUPS[g].dim(l) > 1]
                if g in ("SL2C", "SO13"):  # faithful irreps of the six dimensional algebra
                    t = [l for l in t if min(l) > 0]
                r = {"k": "red", "t": [[1, specs.tab(g, *specs.pick(rng, t))]],
                     "q": specs.rand_q(rng) if i % 3 else None}
                if rng.random() < 0.4:
                    r["t"].append([1, specs.rand_tab(rng, g, 4)])
                out.append({"g": g, "r": r, "p": specs.rand_q(rng, [k for k in specs.QKINDS if k not
                                                                   in ("unit", "cplx", "phases", "scalar", "nearc")])
                            if i % 2 else None, "s": int(rng.integers(10**6))})
        for i in range(n):
            out.append({"fin": True, "n": int(rng.integers(2, 6)), "q": specs.rand_q(rng),
                        "cx": bool(rng.integers(2)), "s": int(rng.integers(10**6))})
        return out

    @staticmethod
    def run(case, obs):
        if case.get("fin"):
            # a finite group: no continuous generator, the algebra has dimension zero
            H = np.asarray(lie.finite.Sn_natural(case["n"]).H)
            d = H.shape[1]
            Q = specs.basis(case["q"], d)
            H = np.stack([Q @ h @ np.linalg.inv(Q) for h in H])
            X = np.zeros((0, d, d), dtype=complex if case["cx"] else float)
            what = f"S{case['n']}"
            A = obs.call("infer_algebra_from_generators", util.infer_algebra_from_generators, X)
            obs.check(A is not None, f"{what}: the empty algebra is found")
            obs.equal(np.shape(A), (0, 0, 0), f"{what}: shape of the empty algebra")
            obs.check(obs.call("check_algebra_vs_generators", util.check_algebra_vs_generators,
                               A, X), f"{what}: empty algebra")
            g = obs.call("GenericRep.from_generators", lie.GenericRep.from_generators, X, H)
            obs.check(g is not None, f"{what}: GenericRep.from_generators")
            obs.equal((g.dim, g.lie_dim, g.A.shape, g.X.shape), (d, 0, (0, 0, 0), (0, d, d)),
                      f"{what}: sizes")
            obs.close(g.H, H, f"{what}: H", 1e-14)
            obs.call("check_algebra_vs_generators", g.check_algebra_vs_generators)
            obs.feature("finite", case["n"], case["cx"])
            return
        A, X, H = specs.dense(case["r"])
        n, d = len(X), X.shape[1]
        rng = np.random.default_rng(case["s"])
        if case["p"]:
            P = specs.basis(case["p"], n)
            X = np.einsum("ab,bij->aij", P, X)
            A = np.einsum("ia,jb,abc,ck->ijk", P, P, A, np.linalg.inv(P), optimize=True)
        what = f"generators of {specs.describe(case['r'])}"
        obs.check(util.check_algebra_vs_generators(A, X, rtol=1e-8, atol=1e-8) in (True, np.True_),
                  f"{what}: satisfy the algebra")
        got = obs.call("infer_algebra_from_generators", util.infer_algebra_from_generators, X)
        obs.check(got is not None, f"{what}: the algebra is found")
        obs.close(got, A, f"{what}: algebra", 1e-7)
        g = obs.call("GenericRep.from_generators", lie.GenericRep.from_generators, X)
        obs.check(g is not None, f"{what}: GenericRep.from_generators")
        obs.close(g.A, A, f"{what}: from_generators algebra", 1e-7)
        obs.close(g.X, X, f"{what}: from_generators X", 1e-14)
        obs.equal(g.H.shape, (0, d, d), f"{what}: no discrete generators")
        if len(H):
            g = obs.call("GenericRep.from_generators", lie.GenericRep.from_generators, X, H)
            obs.close(g.H, H, f"{what}: from_generators H", 1e-14)
        g.check_algebra_vs_generators(1e-7, 1e-7)
        # a rounding function that is too coarse for these structure constants: refused or right
        k = int(rng.integers(1, 4))
        for fn in (lambda x: np.round(x, k), lambda x: np.round(x * 3) / 3, np.trunc):
            for Y in (X, X * float(rng.uniform(0.05, 0.5))):
                for call in (util.infer_algebra_from_generators,
                             lambda Y, round_fn: getattr(lie.GenericRep.from_generators(Y, round_fn=round_fn), "A",
                                                         None)):
                    got = obs.call("infer_algebra_from_generators", call, Y, round_fn=fn)
                    if got is not None:
                        com = np.einsum("iab,jbc->ijac", Y, Y)
                        com = com - com.transpose(1, 0, 2, 3)
                        obs.close(np.einsum("ijk,kab->ijab", got, Y), com, f"{what}: rounded algebra", 1e-7)
        # one that is fine enough: the answer consists of its values
        k = int(rng.integers(12, 14))
        fn = lambda x: np.round(x, k)  # noqa: E731
        for got in (obs.call("infer_algebra_from_generators", util.infer_algebra_from_generators, X, round_fn=fn),
                    getattr(obs.call("GenericRep.from_generators", lie.GenericRep.from_generators, X, round_fn=fn),
                            "A", None)):
            obs.check(got is not None, f"{what}: {k} digits are enough")
            obs.check(np.array_equal(fn(got), got), f"{what}: rounded structure constants")
            obs.close(got, A, f"{what}: rounded algebra", 1e-7)
        # the tolerance given by the caller
        t = 10.0 ** rng.uniform(-8, -5)
        Y = X + t * rng.uniform(-1, 1, size=X.shape)
        big = max(1.0, np.abs(X).max()) ** 2
        com = np.einsum("iab,jbc->ijac", Y, Y)
        com = com - com.transpose(1, 0, 2, 3)
        pinv = np.linalg.pinv(Y.reshape(n, -1))
        res = np.abs(com.reshape(n, n, -1) @ pinv @ Y.reshape(n, -1) - com.reshape(n, n, -1)).max()
        if res > 1e-9 * big * 10:
            obs.check(util.infer_algebra_from_generators(Y) is None, f"{what} + {t:.1g}: refused by default")
        for kw in ({"rtol": 1e-10, "atol": 10 * res + 1e-9}, {"rtol": 0.1, "atol": 10 * res + 1e-9}):
            got = obs.call("infer_algebra_from_generators", util.infer_algebra_from_generators, Y, **kw)
            obs.check(got is not None, f"{what} + {t:.1g}: accepted with a larger tolerance")
            obs.close(got, A, f"{what} + {t:.1g}", 1e4 * t)
            obs.check(util.check_algebra_vs_generators(got, Y, **kw), f"{what} + {t:.1g}: check with that tolerance")
        # a corrupted structure constant or generator is noticed
        B = np.array(A)
        i, j, k = rng.integers(n, size=3)
        B[i, j, k] += specs.pick(rng, [1e-3, 0.5, -1.0])
        obs.check(not util.check_algebra_vs_generators(B, X), f"{what}: wrong structure constant")
        obs.raises("check_algebra_vs_generators", util.check_algebra_vs_generators, B, X,
                   assert_=True, exc=AssertionError)
        Y = np.array(X)
        Y[rng.integers(n)] *= 1.01
        obs.check(not util.check_algebra_vs_generators(A, Y), f"{what}: rescaled generator")
        obs.raises("check", lie.GenericRep(A, Y, H).check_algebra_vs_generators,
                   exc=AssertionError)
        if d > 2:
            Z = np.array(X[:2])
            Z = Z + 0.3 * rng.normal(size=Z.shape)
            obs.check(obs.call("infer_algebra_from_generators",
                               util.infer_algebra_from_generators, Z) is None,
                      f"{what}: two random matrices do not close")
            obs.check(lie.GenericRep.from_generators(Z) is None, "from_generators refuses")
        obs.feature(case["g"], d, bool(case["p"]), len(case["r"]["t"]))


@prop("C32", "Seeded arrays of all shapes, real and complex, for the array helpers; clusters of points "
      "that are separated, and chains that are not.")
class Helpers:
    @staticmethod
    def gen(rng, tier):
        n = 1200 if tier == "thorough" else 200
        return [{"m": m, "s": int(rng.integers(10**8))}
                for m in ("unique", "vmap", "kron", "dsum", "block", "comm") for _ in range(n)]

    @staticmethod
    def run(case, obs):
        rng = np.random.default_rng(case["s"])
        m = case["m"]

        def arr(*shape):
            a = rng.normal(size=shape)
            return a + 1j * rng.normal(size=shape) if rng.random() < 0.5 else a

        if m == "unique":
            k = int(rng.integers(1, 6))
            shape = specs.pick(rng, [(), (1,), (3,), (2, 2)])
            tol = specs.pick(rng, [1e-3, 1e-6, 0.1])
            size = int(np.prod(shape))
            cent = np.zeros((k, size), dtype=complex if rng.random() < 0.5 else float)
            cent += rng.integers(-9, 10, size=(k, size))
            cent[:, 0] = rng.permutation(k) * 3.0
            if np.iscomplexobj(cent):
                cent = cent * (1 + 1j)
            idx = np.concatenate([np.arange(k), rng.integers(k, size=int(rng.integers(0, 12)))])
            idx = rng.permutation(idx)
            jit = rng.uniform(-1, 1, size=(len(idx), size)) * tol / (4 * size)
            a = (cent[idx] + jit).reshape((len(idx),) + shape)
            c, inv = obs.call("unique_with_tol", util.unique_with_tol, a, tol=tol)
            first = []
            for i in idx:
                if i not in first:
                    first.append(i)
            obs.equal([int(i) for i in inv], [first.index(i) for i in idx], "clusters, stable order")
            obs.equal(c.shape, (k,) + shape, "shape of the centers")
            want = np.array([a[inv == j].mean(axis=0) for j in range(k)])
            obs.close(c, want, "centers are the means", 1e-12)
            # a chain: neighbours closer than tol, the ends further
            chain = np.arange(4) * 0.7 * tol + 1.0
            obs.raises("unique_with_tol", util.unique_with_tol, chain[[0, 1, 2, 3]], tol=tol,
                       exc=ValueError)
            # overlapping clusters somewhere among clear ones, in any order
            pts = np.concatenate([np.array([0.0, 0.7, 1.4]) * tol - 5.0, rng.permutation(9)[: int(rng.integers(0, 6))] * 3.0])
            while True:
                pts = rng.permutation(pts)
                i, j, l = (int(np.argmin(abs(pts - (t * tol - 5.0)))) for t in (0, 0.7, 1.4))
                if not (j < i and j < l):  # (the middle one first takes them all)
                    break
            for q in (pts, pts[:, None], np.stack([pts, 0 * pts], axis=1)):
                obs.raises("unique_with_tol", util.unique_with_tol, q, tol=tol, exc=ValueError)
            obs.feature("unique", k, shape, tol)
        elif m == "vmap":
            n, a, b = (int(x) for x in rng.integers(1, 5, size=3))
            ax1, ax2, out = int(rng.integers(2)), specs.pick(rng, [0, 1, None]), int(rng.integers(3))
            x = arr(n, a, b) if ax1 == 0 else arr(a, n, b)
            y = {0: lambda: arr(n, b, 2), 1: lambda: arr(b, n, 2), None: lambda: arr(b, 2)}[ax2]()
            f = util.vmap(lambda p, q: p @ q, (ax1, ax2), out)
            got = obs.call("vmap", f, x, y)
            want = np.stack([np.take(x, i, ax1) @ (y if ax2 is None else np.take(y, i, ax2))
                             for i in range(n)], axis=out)
            obs.close(got, want, "vmap = loop", 1e-12)
            got = obs.call("vmap", util.vmap(lambda p: (p, 2 * p), ax1, 1), x)
            obs.check(isinstance(got, tuple) and len(got) == 2, "tuple of outputs")
            for g, s in zip(got, (1, 2)):
                obs.close(g, s * np.stack([np.take(x, i, ax1) for i in range(n)], axis=1),
                          "vmap of a tuple", 1e-12)
            got = obs.call("vmap", util.vmap(lambda p: p @ p, out_axes=1, out_shape=(3, 3)),
                           np.zeros((0, 3, 3)))
            obs.equal(got.shape, (3, 0, 3), "vmap over nothing")
            sh0 = tuple(int(v) for v in rng.integers(1, 5, size=int(rng.integers(0, 4))))
            for o in range(-len(sh0) - 1, len(sh0) + 1):
                got, want = (obs.call("vmap", util.vmap(lambda p: np.ones(sh0), out_axes=o, out_shape=sh0),
                                      np.zeros((k, 2))).shape for k in (0, 7))
                obs.equal(got, tuple(0 if v == 7 else v for v in want), f"vmap over nothing, out_axes {o}")
            # axes counted from the end
            nd = int(rng.integers(1, 4))
            ax = int(rng.integers(-nd - 1, 0))
            sh = [int(v) for v in rng.integers(1, 5, size=nd)]
            z = arr(*(sh[: ax + nd + 1] + [n] + sh[ax + nd + 1 :]))
            y0 = arr(n, 2)
            got = obs.call("vmap", util.vmap(lambda p, q: np.multiply.outer(p, q), (ax, -2), 0), z, y0)
            want = np.stack([np.multiply.outer(np.take(z, i, ax), y0[i]) for i in range(n)], axis=0)
            obs.close(got, want, "axes counted from the end", 1e-12)
            X, Y = arr(n, a, a), arr(b, a, a)
            com = obs.call("vmap", util.vmap(util.vmap(util.commutator, (0, None), 0), (None, 0), 1),
                           X, Y)
            want = np.array([[p @ q - q @ p for q in Y] for p in X])
            obs.close(com, want, "nested vmap", 1e-12)
            obs.feature("vmap", ax1, ax2, out)
        elif m == "kron":
            k = int(rng.integers(1, 5))
            ms = [arr(*rng.integers(1, 4, size=2)) for _ in range(k)]
            got = obs.call("kron", util.kron, *ms)
            want = ms[0]
            for x in ms[1:]:
                i, j = want.shape
                p, q = x.shape
                want = np.einsum("ij,pq->ipjq", want, x).reshape(i * p, j * q)
            obs.close(got, want, "kron", 1e-12)
            obs.feature("kron", k)
        elif m == "dsum":
            k = int(rng.integers(1, 5))
            batch = specs.pick(rng, [(), (3,), (2, 3)])
            ms = []
            for _ in range(k):
                b = batch if rng.random() < 0.6 else tuple(
                    1 if rng.random() < 0.5 else x for x in batch)
                ms.append(arr(*b, *rng.integers(1, 4, size=2)))
            got = obs.call("direct_sum", util.direct_sum, *ms)
            full = np.broadcast_shapes(*[x.shape[:-2] for x in ms])
            r, c = (sum(x.shape[i] for x in ms) for i in (-2, -1))
            want = np.zeros(full + (r, c), dtype=complex)
            i = j = 0
            for x in ms:
                want[..., i : i + x.shape[-2], j : j + x.shape[-1]] = x
                i, j = i + x.shape[-2], j + x.shape[-1]
            obs.close(got, want, "direct sum of matrices", 1e-14)
            obs.feature("dsum", k, batch)
        elif m == "block":
            k, n = int(rng.integers(1, 5)), int(rng.integers(1, 4))
            ms = [arr(n, *rng.integers(1, 4, size=2)) for _ in range(k)]
            got = obs.call("block_diagonal", util.block_diagonal, ms)
            r, c = (sum(x.shape[i] for x in ms) for i in (-2, -1))
            want = np.zeros((n, r, c), dtype=complex)
            i = j = 0
            for x in ms:
                want[:, i : i + x.shape[-2], j : j + x.shape[-1]] = x
                i, j = i + x.shape[-2], j + x.shape[-1]
            obs.close(got, want, "block diagonal", 1e-14)
            obs.feature("block", k)
        else:
            a, b, c = (arr(2, 3, 3) for _ in range(3))
            f = lambda x, y: obs.call("commutator", util.commutator, x, y)  # noqa: E731
            obs.close(f(a, b), a @ b - b @ a, "commutator", 1e-12)
            obs.zero(f(a, f(b, c)) + f(b, f(c, a)) + f(c, f(a, b)), "Jacobi", 1e-10, 10)
            obs.feature("comm")


# ---------------------------------------------------------------------------------------------
# finite groups
# ---------------------------------------------------------------------------------------------


def finite_group(name):
    """multiplication table of a group given by permutations, and its irreps' dimensions"""
    kind, n = name[0], int(name[1:])
    if kind == "C":
        gens = [tuple((i + 1) % n for i in range(n))]
        irr = [1] * n
    elif kind == "D":
        gens = [tuple((i + 1) % n for i in range(n)), tuple((-i) % n for i in range(n))]
        if n == 2:
            gens = [(1, 0, 2, 3), (0, 1, 3, 2)]
            irr = [1] * 4
        else:
            irr = [1] * (2 if n % 2 else 4) + [2] * ((n - 1) // 2)
    elif kind == "S":
        gens = [(1, 0) + tuple(range(2, n)), tuple((i + 1) % n for i in range(n))]
        irr = {2: [1, 1], 3: [1, 1, 2], 4: [1, 1, 2, 3, 3]}.get(n)
    elif kind == "A":
        gens = [(1, 2, 0, 3), (0, 2, 3, 1)]
        irr = [1, 1, 1, 3]
    elif kind == "Q":
        # quaternion group, regular action of i and j
        el = [(s, u) for u in "1ijk" for s in (1, -1)]
        mul = {("i", "j"): (1, "k"), ("j", "k"): (1, "i"), ("k", "i"): (1, "j"),
               ("j", "i"): (-1, "k"), ("k", "j"): (-1, "i"), ("i", "k"): (-1, "j")}

        def m(a, b):
            if a[1] == "1":
                return (a[0] * b[0], b[1])
            if b[1] == "1":
                return (a[0] * b[0], a[1])
            if a[1] == b[1]:
                return (-a[0] * b[0], "1")
            s, u = mul[(a[1], b[1])]
            return (a[0] * b[0] * s, u)

        gens = [tuple(el.index(m((1, u), x)) for x in el) for u in "ij"]
        irr = [1, 1, 1, 1, 2]
    els = sorted(p for _, p in orc.perm_group(len(gens[0]), [(1, g) for g in gens]))
    index = {p: i for i, p in enumerate(els)}
    table = np.array([[index[tuple(p[i] for i in q)] for q in els] for p in els])
    return table, irr


@prop("C33", "Multiplication tables of cyclic, dihedral (up to 150 elements, thorough 260), symmetric, alternating and quaternion groups "
      "with seeded relabelings.")
class Regular:
    @staticmethod
    def gen(rng, tier):
        names = [f"C{n}" for n in range(1, 9)] + [f"D{n}" for n in range(2, 8)] + \
            ["S2", "S3", "A4", "Q8"] + (["S4"] if tier == "thorough" else [])
        n = 12 if tier == "thorough" else 3
        big = ["C130", "C131", "D66", "D70", "C150"] + (["S5", "C257", "D130"] if tier == "thorough" else [])
        return [{"g": x, "s": i and int(rng.integers(1, 10**6)), "cost": x in ("S4", "A4")}
                for x in names for i in range(n)] + \
            [{"g": x, "s": i and int(rng.integers(1, 10**6)), "big": 1, "cost": 9} for x in big for i in range(2)]

    @staticmethod
    def run(case, obs):
        table, irr = finite_group(case["g"])
        n = len(table)
        if case["s"]:
            p = np.random.default_rng(case["s"]).permutation(n)
            new = np.empty_like(table)
            new[np.ix_(p, p)] = p[table]
            table = new
        D = obs.call("regular_representation", util.regular_representation, table)
        what = f"regular representation of {case['g']}"
        obs.equal(D.shape, (n, n, n), what)
        for g in range(n):
            want = np.zeros((n, n))
            want[table[g], range(n)] = 1
            obs.check(np.array_equal(D[g], want), f"{what}: D({g}) e_h = e_gh")
        if case.get("big"):
            for g, h in np.random.default_rng(case["s"]).integers(n, size=(40, 2)):
                obs.check(np.array_equal(D[g] @ D[h], D[table[g, h]]), f"{what}: homomorphism")
            obs.feature(case["g"], bool(case["s"]))
            return
        obs.check(np.array_equal(np.einsum("gij,hjk->ghik", D, D), D[table]),
                  f"{what}: homomorphism")
        # every irrep appears as often as its dimension
        pieces = obs.call("decompose_rep_into_irreps", util.decompose_rep_into_irreps, D)
        want = sorted(d for d in irr for _ in range(d))
        obs.equal(sorted(P.shape[1] for P in pieces), want, f"{what}: decomposition")
        for P in pieces:
            obs.close(np.einsum("gij,hjk->ghik", P, P), P[table], f"{what}: pieces", 1e-6)
        obs.feature(case["g"], bool(case["s"]))
