"""Reference models, written from the definitions and independent of /repo."""

import cmath
import functools
import itertools
import math

import numpy as np


# ------------------------------------------------------------------ fermions
def bit(n, b, j):
    return (b >> (n - 1 - j)) & 1


def act_lower(n, j, b):
    """a_j |b> = sign |b'>, or None.  Site 0 is the most significant bit."""
    if not bit(n, b, j):
        return None
    s = sum(bit(n, b, k) for k in range(j))
    return (-1) ** s, b ^ (1 << (n - 1 - j))


def act_raise(n, j, b):
    if bit(n, b, j):
        return None
    s = sum(bit(n, b, k) for k in range(j))
    return (-1) ** s, b | (1 << (n - 1 - j))


@functools.lru_cache(None)
def _lower(n, j):
    m = np.zeros((2**n, 2**n))
    for b in range(2**n):
        r = act_lower(n, j, b)
        if r:
            m[r[1], b] = r[0]
    m.setflags(write=False)
    return m


def lowering(n):
    return [_lower(n, j).copy() for j in range(n)]


def alphas(n):
    a = lowering(n)
    return [x.T.copy() for x in a] + a


def majoranas(n):
    a = lowering(n)
    return [(x.T + x) / math.sqrt(2) for x in a] + [
        1j * (x.T - x) / math.sqrt(2) for x in a]


def number(n):
    return np.diag([float(bin(b).count("1")) for b in range(2**n)])


def parity(n):
    return np.diag([(-1.0) ** bin(b).count("1") for b in range(2**n)])


def quad(R, ops, dag=True):
    m = np.zeros(ops[0].shape, dtype=complex)
    for i in range(len(ops)):
        for j in range(len(ops)):
            if R[i][j] != 0:
                x = np.asarray(ops[i])
                m = m + complex(R[i][j]) * ((x.conj().T if dag else x) @ ops[j])
    return m


def swapmat(n):
    z, e = np.zeros((n, n)), np.eye(n)
    return np.block([[z, e], [e, z]])


def coeff_H(A, B):
    A, B = np.asarray(A, dtype=complex), np.asarray(B, dtype=complex)
    return np.block([[-A.conj(), B], [-B.conj(), A]])


def coeff_V(A, Z):
    A, Z = np.asarray(A, dtype=complex), np.asarray(Z, dtype=complex)
    return np.block([[-Z.conj(), A], [-A.conj(), Z]])


def omega(n):
    e = np.eye(n)
    return np.block([[e, e], [1j * e, -1j * e]]) / math.sqrt(2)


def herm_exp(H, factor=-1.0):
    """exp(factor * H) for Hermitian H, through its eigenbasis."""
    w, v = np.linalg.eigh(H)
    return (v * np.exp(factor * w)) @ v.conj().T


def gibbs(Hop):
    w, v = np.linalg.eigh(Hop)
    p = np.exp(-(w - w.min()))
    return (v * (p / p.sum())) @ v.conj().T


# -------------------------------------------------------------- combinatorics
def perm_sign(p):
    """Sign through the cycle decomposition of the rank permutation."""
    order = sorted(p)
    q = [order.index(x) for x in p]
    seen, s = set(), 1
    for i in range(len(q)):
        k, j = 0, i
        while j not in seen:
            seen.add(j)
            j = q[j]
            k += 1
        if k:
            s *= (-1) ** (k - 1)
    return s


def pfaffian(A):
    """Expansion along the first row, exact for Python integers."""
    A = [list(r) for r in A]

    def rec(idx):
        if not idx:
            return 1
        i, rest = idx[0], idx[1:]
        t = 0
        for k, j in enumerate(rest):
            if A[i][j] != 0:
                t = t + (-1) ** k * A[i][j] * rec(rest[:k] + rest[k + 1:])
        return t

    if len(A) % 2:
        return 0
    return rec(tuple(range(len(A))))


def hafnian(A):
    A = [list(r) for r in A]

    def rec(idx):
        if not idx:
            return 1
        i, rest = idx[0], idx[1:]
        t = 0
        for k, j in enumerate(rest):
            if A[i][j] != 0:
                t = t + A[i][j] * rec(rest[:k] + rest[k + 1:])
        return t

    if len(A) % 2:
        return 0
    return rec(tuple(range(len(A))))


def minors(A, signed):
    """Permanent (signed=False) or determinant by row expansion."""
    A = [list(r) for r in A]
    n = len(A)

    def rec(row, cols):
        if row == n:
            return 1
        t = 0
        for k, c in enumerate(cols):
            if A[row][c] != 0:
                s = (-1) ** k if signed else 1
                t = t + s * A[row][c] * rec(row + 1, cols[:k] + cols[k + 1:])
        return t

    return rec(0, tuple(range(n)))


# --------------------------------------------------------------------- graphs
def matchings(nodes, adj):
    """All perfect matchings as frozensets of frozenset edges."""
    nodes = list(nodes)
    out = []

    def rec(rem, cur):
        if not rem:
            out.append(frozenset(cur))
            return
        u = rem[0]
        for v in rem[1:]:
            if v in adj[u]:
                rec([x for x in rem if x != u and x != v], cur + [frozenset((u, v))])

    rec(nodes, [])
    return out


def match_weight(nodes, w):
    """Sum over perfect matchings of the product of weights; w maps pairs."""
    nodes = list(nodes)
    memo = {}

    def rec(rem):
        if not rem:
            return 1
        if rem in memo:
            return memo[rem]
        u = rem[0]
        t = 0
        for v in rem[1:]:
            x = w.get((u, v), w.get((v, u)))
            if x is not None:
                t += x * rec(tuple(y for y in rem if y != u and y != v))
        memo[rem] = t
        return t

    return rec(tuple(nodes))


def spanning_trees(n, edges):
    """All spanning trees of a connected graph on 0..n-1, as edge tuples."""
    for comb in itertools.combinations(edges, n - 1):
        par = list(range(n))

        def find(x):
            while par[x] != x:
                x = par[x]
            return x

        ok = True
        for u, v in comb:
            a, b = find(u), find(v)
            if a == b:
                ok = False
                break
            par[a] = b
        if ok:
            yield comb


def prufer_tree(seq, n):
    if n == 1:
        return []
    if n == 2:
        return [(0, 1)]
    deg = [1] * n
    for x in seq:
        deg[x] += 1
    edges = []
    for x in seq:
        for leaf in range(n):
            if deg[leaf] == 1:
                edges.append((leaf, x))
                deg[leaf] -= 1
                deg[x] -= 1
                break
    u, v = [i for i in range(n) if deg[i] == 1]
    edges.append((u, v))
    return edges


def bfs_depth(edges, root):
    adj = {}
    for u, v in edges:
        adj.setdefault(u, []).append(v)
        adj.setdefault(v, []).append(u)
    dist, q = {root: 0}, [root]
    for x in q:
        for y in adj.get(x, []):
            if y not in dist:
                dist[y] = dist[x] + 1
                q.append(y)
    return max(dist.values()), len(dist)


# ------------------------------------------------------------------- entropy
PAULI = {
    "I": np.eye(2, dtype=complex),
    "X": np.array([[0, 1], [1, 0]], dtype=complex),
    "Y": np.array([[0, -1j], [1j, 0]]),
    "Z": np.array([[1, 0], [0, -1]], dtype=complex),
}


def pauli_string(s):
    m = np.ones((1, 1), dtype=complex)
    for c in s:
        m = np.kron(m, PAULI[c])
    return m


def pauli_words(n):
    return ["".join(w) for w in itertools.product("IXYZ", repeat=n)]


def pauli_expect(rho, word):
    """Tr(rho P) for a Pauli word, element by element (no Kronecker product)."""
    n = len(word)
    flip = sum(1 << (n - 1 - k) for k, c in enumerate(word) if c in "XY")
    t = 0
    for b in range(2**n):
        # P|b> = phase |b ^ flip>, so <b ^ flip| P |b> = phase
        ph = 1
        for k, c in enumerate(word):
            v = bit(n, b, k)
            if c == "Z" and v:
                ph = -ph
            elif c == "Y":
                ph = ph * (1j if v == 0 else -1j)
        t += ph * rho[b, b ^ flip]
    return t


def renyi(p, a):
    p = [float(x) for x in p if x > 0]
    if a == 1:
        return -math.fsum(x * math.log(x) for x in p)
    if a == math.inf:
        return -math.log(max(p))
    if a == 0:
        return math.log(len(p))
    m = max(p)
    return (math.log(math.fsum((x / m) ** a for x in p)) + a * math.log(m)) / (1 - a)


def kl(p, q):
    t = 0.0
    for x, y in zip(p, q):
        if x > 0:
            if y <= 0:
                return math.inf
            t += x * math.log(x / y)
    return t


def compositions(total, parts):
    if parts == 1:
        yield (total,)
        return
    for k in range(total + 1):
        for rest in compositions(total - k, parts - 1):
            yield (k,) + rest


def close(a, b, tol=1e-9):
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and bool(np.all(np.abs(a - b) <= tol * (1 + np.abs(b))))


def dist(a, b):
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return math.inf
    if a.size == 0:
        return 0.0
    d = np.abs(a - b)
    return math.inf if np.isnan(d).any() else float(d.max())


# an alphabet of complex coefficients, indexed so that cases stay JSON-able
VALS = [1, -1, 0.5, 1j, -1j, 2 - 3j, -0.25 + 0.125j, 3e-7, 1e-8j, 40, 1.0 / 3]


def dense(seed, shape, kind="complex"):
    """A fixed dense matrix without symmetry: entries from a low-discrepancy rule."""
    g = (math.sqrt(5) - 1) / 2
    tot = int(np.prod(shape))
    k = np.arange(1, tot + 1) + 17 * seed
    re = 2 * ((k * g) % 1) - 1
    im = 2 * ((k * math.sqrt(2)) % 1) - 1
    if kind == "real":
        return re.reshape(shape)
    if kind == "int":
        return np.round(5 * re).astype(int).reshape(shape)
    return (re + 1j * im).reshape(shape)


def herm(seed, n):
    m = dense(seed, (n, n))
    return (m + m.conj().T) / 2


def anti(seed, n):
    m = dense(seed + 5, (n, n))
    return (m - m.T) / 2


def ortho(seed, n):
    q, r = np.linalg.qr(dense(seed, (n, n), "real") + 0.1 * np.eye(n))
    q = q * np.sign(np.diag(r))
    if np.linalg.det(q) < 0:
        q[:, 0] *= -1
    return q


def unitary(seed, n):
    q, r = np.linalg.qr(dense(seed, (n, n)) + 0.1 * np.eye(n))
    d = np.diag(r)
    return q * (d / np.abs(d))


def symplectic(seed, n):
    om = omega(n)
    return om.conj().T @ ortho(seed, 2 * n) @ om


def layouts(M):
    """The same matrix in different memory layouts and containers."""
    M = np.asarray(M)
    big = np.zeros((2 * M.shape[0], 2 * M.shape[1]), dtype=M.dtype)
    big[::2, ::2] = M
    ro = M.copy()
    ro.setflags(write=False)
    return {"C": M.copy(), "F": np.asfortranarray(M), "strided": big[::2, ::2], "readonly": ro}


def wrap(x, j):
    """The same array in the j-th of four memory layouts; anything else is passed through."""
    if not isinstance(x, np.ndarray) or x.ndim not in (1, 2):
        return x
    if x.ndim == 2:
        return list(layouts(x).values())[j % 4]
    ro = x.copy()
    ro.setflags(write=False)
    return [x, np.repeat(x, 2)[::2], ro, x[::-1].copy()[::-1]][j % 4]
