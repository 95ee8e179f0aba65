"""Independent oracles: weight combinatorics, characters, numerical intertwiner spaces.
Nothing here calls the code under test."""
import collections
import functools
import itertools

import numpy as np
import scipy.linalg

# ---------------------------------------------------------------------------------------------
# gl(n) weights by semistandard tableaux (Gelfand-Tsetlin recursion on interlacing rows)
# ---------------------------------------------------------------------------------------------


@functools.lru_cache(maxsize=None)
def gl_weights(s):
    """Counter {weight (x1..xn exponents): multiplicity} of the gl(n) irrep with highest weight s"""
    n = len(s)
    if n == 1:
        return collections.Counter({(s[0],): 1})
    out = collections.Counter()
    for row in itertools.product(*[range(s[i + 1], s[i] + 1) for i in range(n - 1)]):
        w_last = sum(s) - sum(row)
        for w, m in gl_weights(tuple(row)).items():
            out[w + (w_last,)] += m
    return out


def gl_product(s1, s2):
    """Klimyk's formula: {s3 (last entry 0): multiplicity}"""
    n = len(s1)
    rho = tuple(range(n - 1, -1, -1))
    out = collections.Counter()
    for w, m in gl_weights(tuple(s1)).items():
        v = [a + b + r for a, b, r in zip(s2, w, rho)]
        if len(set(v)) < n:
            continue
        sign = 1
        for i in range(n):
            for j in range(i + 1, n):
                if v[i] < v[j]:
                    sign = -sign
        v = sorted(v, reverse=True)
        s = [a - r for a, r in zip(v, rho)]
        out[tuple(a - s[-1] for a in s)] += sign * m
    assert all(m >= 0 for m in out.values())
    return {k: m for k, m in out.items() if m}


def product(g, l1, l2):
    """{label tuple: multiplicity} of the tensor product of two irreps of the group g"""
    l1, l2 = tuple(l1), tuple(l2)
    if "*" in g:
        g1, g2 = g.split("*")
        n = {"O3": 2, "SL2C": 2, "SO13": 2, "SU2_": 2, "SU3": 3, "SU4": 4}.get(g1, 1)
        p1, p2 = product(g1, l1[:n], l2[:n]), product(g2, l1[n:], l2[n:])
        return {a + b: m * k for a, m in p1.items() for b, k in p2.items()}
    if g == "SU2":
        return {(j,): 1 for j in range(abs(l1[0] - l2[0]), l1[0] + l2[0] + 1, 2)}
    if g == "SO3":
        return {(j,): 1 for j in range(abs(l1[0] - l2[0]), l1[0] + l2[0] + 1)}
    if g == "O3":
        return {
            (j, l1[1] * l2[1]): 1 for j in range(abs(l1[0] - l2[0]), l1[0] + l2[0] + 1)
        }
    if g == "SU2Real":
        a, b = round(2 * l1[0]), round(2 * l2[0])
        out = {}
        for t in range(abs(a - b), a + b + 1, 2):
            half = [x % 2 for x in (a, b, t)]
            out[(t // 2 if t % 2 == 0 else t / 2,)] = int(np.prod([2 if h else 1 for h in half]))
        return out
    if g in ("SL2C", "SO13"):
        return {
            (i, j): 1
            for i in range(abs(l1[0] - l2[0]), l1[0] + l2[0] + 1, 2)
            for j in range(abs(l1[1] - l2[1]), l1[1] + l2[1] + 1, 2)
        }
    if g == "Z2":
        return {(l1[0] * l2[0],): 1}
    return gl_product(l1, l2)


# ---------------------------------------------------------------------------------------------
# characters
# ---------------------------------------------------------------------------------------------


def su2_char(j2, a):
    """trace of exp on the spin j2/2 representation, where the eigenvalues of the fundamental are
    exp(+-a) (a complex)"""
    return sum(np.exp(a * m) for m in range(-j2, j2 + 1, 2))


def schur(s, ev):
    """Schur polynomial at the complex numbers ev, from the weights"""
    return sum(m * np.prod([e**p for e, p in zip(ev, w)]) for w, m in gl_weights(tuple(s)).items())


# ---------------------------------------------------------------------------------------------
# intertwiners
# ---------------------------------------------------------------------------------------------


def hom_operator(Y1, Y2):
    """rows of  S -> Y2 S - S Y1, S of shape (d2, d1) flattened"""
    d1, d2 = Y1.shape[-1], Y2.shape[-1]
    rows = [np.kron(y2, np.eye(d1)) - np.kron(np.eye(d2), y1.T) for y1, y2 in zip(Y1, Y2)]
    if not rows:
        return np.zeros((0, d1 * d2))
    return np.concatenate(rows)


def hom_dim(Y1, Y2, tol=1e-6):
    """dimension of {S: S Y1 = Y2 S}, and the smallest singular value that counted as nonzero"""
    M = hom_operator(Y1, Y2)
    G = M.conj().T @ M
    w = np.linalg.eigvalsh(G)
    w = np.sqrt(np.clip(w, 0, None))
    nz = w[w > tol]
    return int(np.sum(w <= tol)), (float(nz.min()) if len(nz) else np.inf)


def rank(M, tol=1e-7):
    M = np.asarray(M)
    if M.size == 0:
        return 0
    return int(np.sum(np.linalg.svd(M, compute_uv=False) > tol))


def same_span(a, b, tol=1e-6):
    """rows of a and rows of b span the same space"""
    a, b = np.atleast_2d(a), np.atleast_2d(b)
    ra, rb = rank(a, tol), rank(b, tol)
    return ra == rb == rank(np.concatenate([a, b]), tol)


def expm(x):
    return scipy.linalg.expm(x)


def perm_group(n, signed_perms):
    """closure of signed permutations (s, p); composition (p q)[i] = p[q[i]]"""
    e = (1, tuple(range(n)))
    g = {e}
    todo = [e]
    while todo:
        s, p = todo.pop()
        for t, q in signed_perms:
            x = (s * t, tuple(p[q[i]] for i in range(n)))
            if x not in g:
                g.add(x)
                todo.append(x)
    return g


def perm_sign(p):
    p = list(p)
    s = 1
    for i in range(len(p)):
        while p[i] != i:
            j = p[i]
            p[i], p[j] = p[j], p[i]
            s = -s
    return s
