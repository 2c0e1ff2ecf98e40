"""Entropies, distances, magic and Gaussianity measures, casts, partial traces, utilities."""

import itertools
import math
import re
import sys

import numpy as np

import ff
from mc import ref
from mc.engine import Space

ALPH = [0.001, 0.25, 0.5, 0.999, 1, 1.001, 1.5, 2, 3, 4, 10, 50, 300, 1000, math.inf]


def canon(psi):
    """Amplitudes up to a global phase."""
    psi = np.asarray(psi).ravel()
    k = int(np.argmax(np.abs(psi) > 1e-6))
    psi = psi * (abs(psi[k]) / psi[k])
    return tuple(np.round(psi + 0, 6) + 0.0)


def gate1(n, q, g):
    m = np.ones((1, 1))
    for k in range(n):
        m = np.kron(m, g if k == q else np.eye(2))
    return m


def cnot(n, c, t):
    m = np.zeros((2**n, 2**n))
    for b in range(2**n):
        m[b ^ (ref.bit(n, b, c) << (n - 1 - t)), b] = 1
    return m


HAD = np.array([[1, 1], [1, -1]]) / math.sqrt(2)
SG = np.diag([1, 1j])
TG = np.diag([1, np.exp(0.25j * math.pi)])


def cliffords(n):
    return ([gate1(n, q, HAD) for q in range(n)] + [gate1(n, q, SG) for q in range(n)]
            + [cnot(n, a, b) for a in range(n) for b in range(n) if a != b])


def orbit(n, start, limit):
    gens = cliffords(n)
    seen = {canon(start): np.asarray(start, dtype=complex)}
    front = list(seen.values())
    edges = 0
    while front:
        nxt = []
        for psi in front:
            for g in gens:
                edges += 1
                phi = g @ psi
                key = canon(phi)
                if key not in seen:
                    if len(seen) >= limit:
                        return list(seen.values()), edges
                    seen[key] = phi
                    nxt.append(phi)
        front = nxt
    return list(seen.values()), edges


def xi_ref(rho):
    n = int(round(math.log2(rho.shape[0])))
    pur = np.trace(rho @ rho).real
    e = np.array([ref.pauli_expect(rho, w) for w in ref.pauli_words(n)])
    return (e.real**2) / (2**n * pur)


class Magic(Space):
    rule = ("state = n-qubit state in the Clifford orbit of a seed state; transition = one Clifford "
            "gate (Pauli distribution must be permuted, magic unchanged); trace = one distribution or "
            "entropy compared with Pauli expectation values")
    assumptions = ["order parameter > 0 (order 0 counts exact zeros)"]

    def bounds(self, tier):
        return ("full stabilizer orbits on 1..3 qubits (6, 60, 1080 states), orbits of T-type seeds up "
                "to %d states, mixtures, dense states to %d qubits, amplitudes down to 1e-4" % (
                    (300, 5) if tier == "quick" else (4000, 6)))

    SEEDS = [[0, 0, 0], [1, 0, 0], [1, 1, 0], [1, 1, 1], [2, 0, 0], [2, 1, 3]]

    def shards(self, tier):
        out = [["orbit", n, s, r, 8 if n == 3 else 1] for n in (3, 2, 1)
               for s in (range(6) if n > 1 else range(5)) for r in range(8 if n == 3 else 1)]
        return [["dense", n] for n in (6, 5)] + out + [
            ["dense", n] for n in (4, 3, 2, 1)] + [["weak", n] for n in (3, 2, 1)] + [["mixed", 0]]

    def cases(self, shard, tier):
        if shard[0] == "orbit":
            yield shard + [3000 if shard[2] == 0 else (300 if tier == "quick" else 4000)]
        elif shard[0] == "dense":
            n = shard[1]
            for s in range(12 if n < 4 else 3 if n == 4 else 1):
                for form in range(6) if n < 5 else (2,) if n == 6 and tier != "quick" else (0,) if n == 6 else (0, 3):
                    yield ["dense", n, s, form]
        elif shard[0] == "weak":
            for i in range(2**shard[1]):
                for e in (1e-1, 1e-2, 1e-3, 1e-4):
                    for form in range(3):
                        yield ["weak", shard[1], i, e, form]
        else:
            for n in (1, 2, 3):
                for k in range(40):
                    yield ["mixed", n, k]

    def seed_state(self, n, s):
        psi = np.zeros(2**n, dtype=complex)
        psi[0] = 1
        for q in range(n):
            g = self.SEEDS[s][q]
            if g:
                psi = gate1(n, q, HAD) @ psi
                psi = gate1(n, q, TG if g == 1 else np.diag([1, np.exp(0.3j * g)])) @ psi
                if g >= 2:
                    psi = gate1(n, q, HAD) @ psi
        return psi

    def compare(self, rec, rho, arg):
        xi = ff.stabilizer_distribution(arg)
        rec.trace()
        want = xi_ref(rho)
        rec.check(np.ndim(xi) == 1 and ref.dist(xi, want) < 1e-11, "Pauli distribution wrong by %g",
                  ref.dist(xi, want))
        rec.check(abs(sum(xi) - 1) < 1e-8 and min(xi) >= 0, "not a distribution")
        return want

    def run(self, case, rec):
        if case[0] == "orbit":
            n, s, r, k, limit = case[1:]
            states, edges = orbit(n, self.seed_state(n, s), limit)
            rec.trans(edges if r == 0 else 0)
            if s == 0:
                rec.check(len(states) == {1: 6, 2: 60, 3: 1080}[n], "harness: orbit size")
            base = None
            mult = np.sort(xi_ref(np.outer(states[0], states[0].conj())))
            for i, psi in enumerate(states):
                if i % k != r:
                    continue
                rec.state((n, canon(psi)))
                rho = np.outer(psi, psi.conj())
                xi = self.compare(rec, rho, psi)
                rec.outcome(tuple(np.round(xi, 6)))
                rec.check(ref.dist(np.sort(xi), mult) < 1e-9, "distribution not permuted by a Clifford")
                a = [2, 1, 0.5, 3, math.inf][i % 5]
                for al in (2, a):
                    v = ff.SRE(psi if i % 2 else rho, al)
                    want = ref.renyi(mult, al) - n * math.log(2)
                    rec.trace()
                    rec.check(abs(v - want) < 1e-6, "SRE_%s = %s, expected %s", al, v, want)
                    if s == 0:
                        rec.check(abs(v) < 1e-7, "stabilizer state has SRE %s", v)
                rec.check(ff.SRE(psi) == ff.SRE(psi, 2), "default order is not 2")
            return
        rec.state(case)
        rec.trans()
        if case[0] == "dense":
            n, s, form = case[1:]
            psi = ref.unitary(s, 2**n)[:, 0]
            rho = np.outer(psi, psi.conj())
            if form == 3:
                U = ref.unitary(s, 2**n)
                p = np.arange(1, 2**n + 1) ** (1 + s % 3)
                rho = (U * (p / p.sum())) @ U.conj().T
                rho = (rho + rho.conj().T) / 2
            arg = [psi, psi.reshape(-1, 1), rho, rho, psi.tolist(), rho.tolist()][form]
        elif case[0] == "weak":
            n, i, e, form = case[1:]
            psi = e * ref.dense(i, (2**n,)) / 2
            psi[i] += 1
            psi = psi / np.linalg.norm(psi)
            rho = np.outer(psi, psi.conj())
            if form:
                bulk = np.diag(np.eye(2**n)[i]) if form == 1 else np.eye(2**n) / 2**n
                rho = (1 - e) * bulk + e * np.outer(psi, psi.conj()) + 0j
            arg = rho if form else psi
        else:
            n, k = case[1:]
            st, _ = orbit(n, self.seed_state(n, 0), 60)
            a, b = st[k % len(st)], st[(7 * k + 3) % len(st)]
            lam = [0.5, 0.25, 1, 0.9][k % 4]
            rho = lam * np.outer(a, a.conj()) + (1 - lam) * np.outer(b, b.conj())
            if k % 10 == 9:  # completely mixed, with rounding noise
                U = ref.unitary(k, 2**n)
                rho = U @ (np.eye(2**n) / 2**n) @ U.conj().T
            arg = rho
        arg = ref.wrap(arg, sum(x for x in case if isinstance(x, int)))
        xi = self.compare(rec, rho, arg)
        for al in (0.5, 1, 1.5, 2, 3, 10, math.inf) if n < 5 else (2, 1, 0.5) if n < 6 else (2,):
            v = ff.SRE(arg, al)
            rec.trace()
            if np.count_nonzero(xi > 1e-12) == 1:
                want = 0.0
            else:
                want = ref.renyi(np.where(xi > 1e-25, xi, 0), al) - n * math.log(2)
            rec.check(abs(v - want) < 1e-6, "SRE_%s = %s, expected %s", al, v, want)
        rec.outcome(round(float(want), 6))


class Gaussianity(Space):
    rule = ("state = fermionic state in the braid-group orbit of a seed; transition = one braid "
            "exp(pi/4 g_i g_j) between neighbouring Majoranas (spectrum must not change); trace = one "
            "covariance distribution / anti-flatness compared with the covariance spectrum")

    def bounds(self, tier):
        return "orbits on 1..3 sites from 6 seeds (<= %d states), dense pure and mixed states to %d sites, "\
               "amplitudes down to 1e-3" % ((150, 6) if tier == "quick" else (2000, 7))

    def shards(self, tier):
        return [["orbit", n, s] for n in (3, 2, 1) for s in range(6)] + [["orbit", 4, 4], ["orbit", 4, 5]] + [
            ["dense", n] for n in ((6, 5, 4, 3, 2, 1) if tier == "quick" else (7, 6, 5, 4, 3, 2, 1))]

    def cases(self, shard, tier):
        if shard[0] == "orbit":
            yield shard + [150 if tier == "quick" else 2000]
        else:
            n = shard[1]
            for s in range(10 if n < 5 else 2 if n < 7 else 1):
                for form in range(9):
                    yield ["dense", n, s, form]

    @staticmethod
    def seed_state(n, s):
        d = 2**n
        psi = np.zeros(d, dtype=complex)
        if s == 0:
            psi[0] = 1
        elif s == 1:
            psi[d - 1] = 1
        elif s == 2:
            psi[0] = psi[d - 1] = 1
        elif s == 3:
            psi[:] = 1
        elif s == 4:
            psi[0], psi[d - 1], psi[d // 2] = 1, 0.5j, 0.25
        else:
            psi = ref.dense(3, (d, 1))[:, 0]
        return psi / np.linalg.norm(psi)

    @staticmethod
    def spectrum(rho, n):
        g = ref.majoranas(n)
        M = np.array([[2 * np.trace(rho @ a @ b).imag if i != j else 0 for j, b in enumerate(g)]
                      for i, a in enumerate(g)])
        return np.sort(np.abs(np.linalg.eigvalsh(1j * M)))[::2], M

    def compare(self, rec, rho, arg, n, lam):
        pm = ff.cov_distribution(arg)
        rec.trace()
        want = np.sort([x * x for x in lam if x > 1e-8])
        got = np.sort([x for x in np.asarray(pm) if x > 1e-16])
        rec.check(ref.dist(got, want) < 1e-8, "distribution %s, expected %s", got, want)
        for k in (1, 2, 3, 4, 5, 6, 8, 2.5, 0.5):
            v = ff.FAF(arg, k)
            rec.trace()
            w = n - sum(x ** (2 * k) for x in lam)
            rec.check(abs(v - w) < (1e-8 if k >= 1 else 1e-6), "FAF_%s = %s, expected %s", k, v, w)
        rec.check(abs(ff.FAF(arg) - ff.FAF(arg, 2)) < 1e-12, "default k is not 2")
        rec.check(-1e-8 <= v <= n + 1e-8, "FAF outside [0, n]")
        rec.outcome(tuple(np.round(lam, 6)))

    def run(self, case, rec):
        if case[0] == "dense":
            n, s, form = case[1:]
            rec.state(case)
            rec.trans()
            d = 2**n
            U = ref.unitary(s, d)
            psi = U[:, 0]
            if form == 0:
                arg = psi
            elif form == 1:
                arg = psi.reshape(-1, 1)
            elif form == 2:
                arg = np.outer(psi, psi.conj())
            elif form == 3:  # mixed
                p = np.arange(1, d + 1) ** (s % 4)
                arg = (U * (p / p.sum())) @ U.conj().T
                arg = (arg + arg.conj().T) / 2
            elif form == 4:  # Gaussian, pure: zero of the measure
                H = ref.coeff_H(ref.herm(s, n), ref.anti(s, n))
                w, v = np.linalg.eigh(ref.quad(H, ref.alphas(n)))
                arg = v[:, 0]
                rec.check(abs(ff.FAF(arg)) < 1e-7, "pure Gaussian state has FAF %s", ff.FAF(arg))
            elif form == 6:  # a product state with a weak admixture
                arg = ref.dense(s, (d,)) * [1e-1, 1e-2, 1e-3][s % 3]
                arg[(7 * s + 2) % d] += 1
                arg = arg / np.linalg.norm(arg)
            elif form == 7:  # weakly mixed
                e = [1e-1, 1e-2, 1e-3][s % 3]
                arg = (1 - e) * np.diag(np.eye(d)[(5 * s + 1) % d]) + e * np.outer(psi, psi.conj())
            elif form == 8:
                arg = psi.tolist()
            else:  # real state with a definite parity
                x = psi.real * np.array([bin(b).count("1") % 2 == s % 2 for b in range(d)])
                arg = x / np.linalg.norm(x)
            rho = arg if np.ndim(arg) == 2 and arg.shape[1] > 1 else np.outer(arg, np.conj(arg))
            lam, _ = self.spectrum(rho, n)
            self.compare(rec, rho, ref.wrap(arg, s + n), n, lam)
            return
        n, s, limit = case[1:]
        g = ref.majoranas(n)
        gens = []
        order = [x for i in range(n) for x in (i, n + i)]
        for a, b in zip(order, order[1:]):
            # (2 g_a g_b)^2 = -1, so exp(pi/4 * 2 g_a g_b) = (1 + 2 g_a g_b)/sqrt 2
            gens.append((np.eye(2**n) + 2 * g[a] @ g[b]) / math.sqrt(2))
        psi0 = self.seed_state(n, s)
        seen = {canon(psi0): psi0}
        front = [psi0]
        lam, _ = self.spectrum(np.outer(psi0, psi0.conj()), n)
        while front:
            nxt = []
            for psi in front:
                rec.state((n, canon(psi)))
                rho = np.outer(psi, psi.conj())
                self.compare(rec, rho, psi if len(seen) % 2 else rho, n, lam)
                for G in gens:
                    rec.trans()
                    phi = G @ psi
                    key = canon(phi)
                    if key not in seen and len(seen) < limit:
                        seen[key] = phi
                        nxt.append(phi)
            front = nxt


def lattice(k, N):
    return list(ref.compositions(N, k))


def dressings(p, j=0):
    """A distribution given as array / list / density matrix / wavefunction."""
    p = np.asarray(p, dtype=float)
    d = len(p)
    amp = np.sqrt(p) * np.exp(1j * np.arange(d))
    rho = np.outer(amp, amp.conj())
    return [p, p.tolist(), np.diag(p), amp, rho, p.reshape(-1, 1), amp.reshape(-1, 1),
            amp.reshape(1, -1)][j % 8]


class Entropies(Space):
    rule = ("state = (lattice distribution, order); transition = next order (entropy must not grow) or "
            "tensoring with a second distribution (entropies must add); trace = one entropy compared")
    assumptions = ["probability vectors whose 2-norm is within 1e-5 of 1 are read as wavefunctions, so "
                   "near-pure distributions are given as diagonal density matrices"]

    def bounds(self, tier):
        return "all distributions k/N with 2..5 outcomes, N <= %d; patterns with 6..400 outcomes; " \
               "%d orders + order 0" % (6 if tier == "quick" else 8, len(ALPH))

    def shards(self, tier):
        return [[k, N] for k in (5, 4, 3, 2) for N in range(6 if tier == "quick" else 8, 0, -1)] + [
            ["near", 0], ["noise", 0], ["one", 0]] + [["sq", d] for d in (6, 7, 8, 9, 10, 12, 16, 17, 25, 32, 36, 64, 100, 144)] + [["pat", d] for d in (128, 256, 400)]

    def cases(self, shard, tier):
        k, N = shard
        if k == "near":
            for e in (1e-3, 1e-6, 1e-9, 1e-12):
                for d in (2, 3, 4, 9):
                    yield ["near", d, e]
        elif k == "noise":  # populations that are zero up to negative rounding noise
            for d in (2, 3, 4):
                for i in range(d):
                    for e in (1e-17, 1e-15):
                        yield ["noise", d, i, e]
        elif k == "one":
            yield ["p", [1], 1]
        elif k == "pat":
            yield ["p", [1] * N, N]
            yield ["p", [i % 5 for i in range(N)], sum(i % 5 for i in range(N))]
        elif k == "sq":
            for i in range(N if N < 20 else 4):
                for m in list(range(1, 6)) + ([N // 2] if N > 10 else []):
                    c = [0] * N
                    for t in range(m):
                        c[(i + 3 * t) % N] += t + 1
                    yield ["p", c, sum(c)]
            yield ["p", [1] * N, N]
        else:
            for c in lattice(k, N):
                yield ["p", list(c), N]

    def run(self, case, rec):
        if case[0] == "near":
            d, e = case[1:]
            p = np.full(d, e)
            p[1] = 1 - (d - 1) * e
            forms = [np.diag(p), p, p.tolist(), p.reshape(-1, 1)]
        elif case[0] == "noise":
            d, i, e = case[1:]
            p = np.arange(1, d + 1) / (d * (d + 1) / 2 - i - 1)
            p[i] = 0.0
            forms = [np.diag(p) - e * np.diag(np.eye(d)[i]), (np.diag(p) - e * np.diag(np.eye(d)[i])) + 0j]
        else:
            p = np.array(case[1]) / case[2]
            forms = [dressings(p, j) for j in range(8)] + [np.diag(p).tolist()]
        for f, arg in enumerate(forms):
            arg = ref.wrap(arg, f + sum(x for x in case[1] if isinstance(x, int)) if isinstance(case[1], list) else f)
            prev = math.inf
            amps = f in (3, 4, 6, 7) and case[0] != "near"
            rare = case[0] == "near" and case[2] > 1e-7
            for a in ([0] if not amps and case[0] == "p" or rare else []) + ALPH:
                rec.state((tuple(p), a))
                rec.trans()
                rec.trace()
                got = ff.renyi_entropy(arg, a)
                want = ref.renyi(p, a)
                rec.check(abs(got - want) < 1e-8 * (1 + abs(want)) + (1e-6 if case[0] == "near" and a < 1 else 0),
                          "S_%s = %s, expected %s", a, got, want)
                rec.check(got <= prev + 1e-8 and got >= -1e-9, "entropy grows with the order")
                prev = got
            if math.isqrt(len(p)) ** 2 == len(p):
                rec.trace()
                rec.check(abs(ff.linear_entropy(arg) - (1 - sum(x * x for x in p))) < 1e-9,
                          "linear entropy")
            else:
                try:
                    ff.linear_entropy(arg)
                except (AssertionError, ValueError):
                    continue
                rec.fail("linear entropy accepts %d outcomes" % len(p))
        if case[0] == "p" and len(p) <= 3:
            for c in lattice(2, 3):
                q = np.array(c) / 3
                for a in (0.5, 1, 2, math.inf):
                    rec.trans()
                    rec.trace()
                    rec.check(abs(ff.renyi_entropy(np.diag(np.kron(p, q)), a) - ff.renyi_entropy(p, a)
                                  - ff.renyi_entropy(q, a)) < 1e-7, "not additive")
        rec.outcome(tuple(np.round([ref.renyi(p, a) for a in ALPH], 6)))


class Divergences(Space):
    rule = ("state = ordered pair of lattice distributions (with input form); transition = swapping the "
            "arguments, or a third distribution (triangle inequality); trace = one measure compared")

    def bounds(self, tier):
        return "all ordered pairs of distributions k/N: 2 outcomes N<=6, 3 outcomes N<=4, 4 outcomes N<=%d; "\
               "patterns with 6..256 outcomes; entries between 2e-6 and 1; outcomes of probability 1e-9 to 1e-290; distributions at distance 1e-2..1e-6" % (
                   3 if tier == "quick" else 5)

    SETS = [(2, 5), (2, 6), (3, 3), (3, 4), (4, 3), (5, 2)]

    def shards(self, tier):
        sets = self.SETS + ([(4, 5), (3, 7)] if tier != "quick" else [])
        return [[k, N, r] for k, N in sets[::-1] for r in range(4)] + [["noise", 0, 0], ["one", 0, 0],
                                                                        ["big", 0, 0], ["close", 0, 0], ["spike", 0, 0], ["rare", 0, 0]] + [
            ["scales", d, r] for d in (2, 3) for r in range(4)]

    def cases(self, shard, tier):
        k, N, r = shard
        if k == "big":
            for d in (6, 7, 8, 9, 10, 12, 16, 17, 25, 33, 64, 65, 128, 256):
                pats = [[1] * d, list(range(d)), [i % 3 for i in range(d)], [1 + (i * i) % 5 for i in range(d)],
                        [int(i == d - 1) for i in range(d)]]
                for i, p in enumerate(pats):
                    for j, q in enumerate(pats):
                        if d < 65 or (i + 1) % 5 == j:
                            yield ["big", p, q]
            return
        if k == "scales":  # entries of very different sizes
            L = list(itertools.product((0, 2e-6, 1e-4, 7e-4, 0.02, 0.3), repeat=N - 1))
            for i, p in enumerate(L):
                if i % 4 == r:
                    for q in L:
                        yield [k, [*p, 1 - sum(p)], [1 - sum(q), *q] if N == 2 and i % 8 < 4 else [*q, 1 - sum(q)]]
            return
        if k == "close":
            for d in (2, 3, 4, 9):
                for i in range(d):
                    for j in range(d):
                        for e in (1e-2, 1e-4, 1e-6):
                            if i != j:
                                yield ["close", d, i, j, e]
            return
        if k == "rare":
            for d in (3, 4, 5):
                for e in (9, 11, 13, 14, 15, 16, 17, 20, 30, 100, 290):
                    for i in range(d):
                        for j in range(d):
                            yield ["rare", d, i, j, e]
            return
        if k == "spike":
            for d in (2, 3, 4, 9):
                for i in range(d):
                    for e in (1e-2, 1e-3, 1e-5, 3e-6, 1e-7):
                        for form in range(4):
                            yield ["spike", d, i, e, form]
            return
        if k == "noise":
            for d in (2, 3, 4):
                for i in range(d):
                    for j in range(d):
                        yield ["noise", d, i, j]
            return
        if k == "one":
            yield ["p", [1], [1], 1]
            return
        L = lattice(k, N)
        for i, p in enumerate(L):
            if i % 4 == r:
                for q in L:
                    yield ["p", list(p), list(q), N]

    def run(self, case, rec):
        if case[0] == "noise":  # rounding noise below zero, as computed density matrices have
            d, i, j = case[1:]
            p = np.full(d, 1 / (d - 1) if d > 1 else 1.0)
            p[i] = 0
            q = np.arange(1, d + 1) / (d * (d + 1) / 2)
            rp = np.diag(p)
            rp[i, i] = -1e-17 * (j + 1)
            for a, b, x, y in ((rp, np.diag(q), p, q), (np.diag(q), rp, q, p)):
                self.compare(rec, a, b, x, y)
            rec.state(case)
            return
        if case[0] == "scales":
            p, q = np.array(case[1]), np.array(case[2])
            rec.state(case)
            self.compare(rec, p, np.diag(q), p, q)
            return
        if case[0] == "close":
            d, i, j, e = case[1:]
            p = np.arange(1, d + 1) / (d * (d + 1) / 2)
            q = p.copy()
            q[i] += e
            q[j] -= e
            rec.state(case)
            self.compare(rec, p, q, p, q)
            self.compare(rec, np.diag(q), p.tolist(), q, p)
            rec.check(abs(ff.total_variation_distance(p, q) - e) < 1e-12, "small distance lost")
            return
        if case[0] == "rare":  # an outcome that hardly ever occurs, in one distribution or in both
            d, i, j, e = case[1:]
            p, q = np.arange(1.0, d + 1), np.ones(d)
            p[i] = q[j] = 0
            p, q = p / p.sum(), q / q.sum()
            r = q.copy()
            q[j] = 10.0**-e
            q /= q.sum()
            rec.state(case)
            self.compare(rec, p, q, p, q)
            self.compare(rec, np.diag(q), p.reshape(-1, 1), q, p)
            p[i] = 3 * 10.0**-e
            p /= p.sum()
            self.compare(rec, q, np.diag(p), q, p)
            self.compare(rec, p.tolist(), r, p, r)
            return
        if case[0] == "spike":  # nearly deterministic distributions
            d, i, e, form = case[1:]
            p = np.eye(d)[i] * (1 - e) + e / d
            q = np.arange(1, d + 1) / (d * (d + 1) / 2) if form % 2 else np.eye(d)[i] * (1 - 3 * e) + 3 * e / d
            rec.state(case)
            self.compare(rec, p if form < 2 else p.reshape(-1, 1), q.tolist(), p, q)
            self.compare(rec, q, np.diag(p), q, p)
            return
        if case[0] == "big":
            p, q = np.array(case[1]) / sum(case[1]), np.array(case[2]) / sum(case[2])
        else:
            p, q = np.array(case[1]) / case[3], np.array(case[2]) / case[3]
        k = sum(3 * x for x in case[1]) + sum((i + 2) * x for i, x in enumerate(case[2]))
        for jp, jq in ((0, 0), (k, 3 * k + 1)):
            rec.state((tuple(p), tuple(q), jp % 8, jq % 8))
            self.compare(rec, dressings(p, jp), dressings(q, jq), p, q)
        # triangle inequality through every corner of the simplex
        for c in np.eye(len(p))[:8]:
            rec.trans()
            t = ff.total_variation_distance
            rec.check(t(p, q) <= t(p, c) + t(c, q) + 1e-9, "triangle inequality")

    def compare(self, rec, a, b, p, q):
        rec.trans()
        k = int(1000 * (p[0] + 2 * q[-1]))
        a, b = ref.wrap(a, k), ref.wrap(b, k // 3)
        tv = 0.5 * math.fsum(abs(x - y) for x, y in zip(p, q))
        bc = math.fsum(math.sqrt(x * y) for x, y in zip(p, q))
        m = (np.asarray(p) + np.asarray(q)) / 2
        js = 0.5 * (ref.kl(p, m) + ref.kl(q, m))
        kl = ref.kl(p, q)
        for name, f, w in (("total variation", ff.total_variation_distance, tv),
                           ("Bhattacharyya", ff.bhattacharyya_coeff, bc),
                           ("Jensen-Shannon", ff.jensen_shannon_divergence, js),
                           ("relative entropy", ff.relative_entropy, kl)):
            g = f(a, b)
            rec.trace()
            # amplitudes squared may leave 1e-32 where the distribution has an exact zero
            ok = g == w if math.isinf(w) else abs(g - w) < 1e-11 * (1 + len(p))
            if math.isinf(w) and not ok:
                ok = g > 10
            rec.check(ok, "%s = %s, expected %s", name, g, w)
            if w != kl:
                rec.check(abs(f(b, a) - g) < 1e-9, "%s is not symmetric", name)
        rec.outcome((round(tv, 6), round(bc, 6), round(js, 6), round(kl, 6)))


class TraceDistance(Space):
    rule = ("state = ordered pair of density matrices; transition = common unitary rotation / swap / "
            "third state; trace = one distance compared with the singular values of the difference")

    def bounds(self, tier):
        return "all pairs from a 26-point Bloch lattice (pure and mixed), dense pairs to dimension 128, " \
               "pairs at distance 1e-1..1e-6"

    @staticmethod
    def qubit(i):
        pts = [v for v in itertools.product((-1, 0, 1), repeat=3)]
        x, y, z = np.array(pts[i // 2], dtype=float)
        r = math.sqrt(x * x + y * y + z * z)
        s = (1.0 if i % 2 else 0.6) / r if r else 0
        x, y, z = x * s, y * s, z * s
        return np.array([[1 + z, x - 1j * y], [x + 1j * y, 1 - z]]) / 2

    def shards(self, tier):
        return [["q", r] for r in range(8)] + [["d", n] for n in (2, 3, 4, 5, 6, 7, 8, 9, 12, 16, 17, 32, 33, 64, 128)] + [
            ["near", n] for n in (2, 3, 4, 8)]

    def cases(self, shard, tier):
        if shard[0] == "near":
            for s in range(4):
                for e in (1e-1, 1e-2, 1e-3, 1e-4, 1e-6):
                    for form in range(3):
                        yield ["near", shard[1], s, e, form]
        elif shard[0] == "q":
            for i in range(54):
                if i % 8 == shard[1]:
                    for j in range(54):
                        yield ["q", i, j]
        else:
            top = 6 if shard[1] < 16 else 2
            for s in range(top):
                for t in range(top):
                    for form in range(4):
                        yield ["d", shard[1], s, t, form]

    def run(self, case, rec):
        rec.state(case)
        if case[0] == "q":
            A, B = self.qubit(case[1]), self.qubit(case[2])
            args = (A, B)
            C = self.qubit((case[1] * 5 + 7) % 54)
        elif case[0] == "near":
            n, s, e, form = case[1:]
            U = ref.unitary(s, n)
            p = np.arange(1, n + 1) / (n * (n + 1) / 2)
            A = (U * p) @ U.conj().T
            A = (A + A.conj().T) / 2
            if form == 0:  # coherences between two basis states
                X = np.zeros((n, n), dtype=complex)
                X[0, n - 1], X[n - 1, 0] = 1j, -1j
                A, X = np.diag(p) + 0j, X * p.min()
            elif form == 1:  # a population moved
                X = U @ np.diag([p.min()] + [0] * (n - 2) + [-p.min()]) @ U.conj().T
                X = (X + X.conj().T) / 2
            else:
                h = ref.herm(s, n)
                X = h - np.eye(n) * np.trace(h).real / n
                X = X * p.min() / np.abs(np.linalg.eigvalsh(X)).max()
            B = A + e * X
            args, C = (A, B), np.eye(n) / n
        else:
            n, s, t, form = case[1:]
            U, V = ref.unitary(s, n), ref.unitary(t + (0 if s != t else 0), n)
            p = np.arange(1, n + 1) / (n * (n + 1) / 2)
            a, b = U[:, 0], V[:, (s + t) % n]
            if form == 0:
                args = (a, b)
                A, B = np.outer(a, a.conj()), np.outer(b, b.conj())
                w = math.sqrt(max(0, 1 - abs(np.vdot(a, b)) ** 2))
                rec.check(abs(ff.trace_distance(a, b) - w) < 1e-6, "pure states: overlap formula")
            elif form == 1:
                A, B = (U * p) @ U.conj().T, np.outer(b, b.conj())
                A = (A + A.conj().T) / 2
                args = (A, b.reshape(-1, 1))
            elif form == 2:
                A, B = (U * p) @ U.conj().T, (V * p[::-1]) @ V.conj().T
                A, B = (A + A.conj().T) / 2, (B + B.conj().T) / 2
                args = (A, B)
            else:
                A, B = np.diag(p), np.diag(np.roll(p, s + t))
                args = (A.tolist(), B)
                rec.check(abs(ff.trace_distance(A, B) - ff.total_variation_distance(p, np.roll(p, s + t)))
                          < 1e-9, "diagonal states: total variation")
            C = np.eye(n) / n
        want = 0.5 * np.linalg.svd(np.asarray(A) - np.asarray(B), compute_uv=False).sum()
        k = sum(x for x in case if isinstance(x, int))
        args = tuple(ref.wrap(x, k + i) for i, x in enumerate(args))
        got = ff.trace_distance(*args)
        rec.trace()
        rec.trans(3)
        rec.check(abs(got - want) < 1e-9, "distance %s, expected %s", got, want)
        rec.check(abs(ff.trace_distance(args[1], args[0]) - want) < 1e-8, "not symmetric")
        n = A.shape[0]
        W = ref.unitary(11, n)
        ra, rb = W @ A @ W.conj().T, W @ B @ W.conj().T
        rec.check(abs(ff.trace_distance((ra + ra.conj().T) / 2, (rb + rb.conj().T) / 2) - want) < 1e-8,
                  "not unitarily invariant")
        rec.check(want <= ff.trace_distance(A, C) + ff.trace_distance(C, B) + 1e-8, "triangle inequality")
        rec.trace(4)
        rec.outcome(round(float(want), 6))


class Casts(Space):
    rule = ("state = candidate input array; transition = one defect introduced into a valid input; "
            "trace = one cast accepted with the expected matrix, or rejected")
    assumptions = ["NumPy's allclose tolerances: norm and trace defects of at least 3e-5 and negative eigenvalues of at "
                   "least 3e-12 must be refused"]

    def bounds(self, tier):
        return "all vectors over 10 values to length 4; lattice distributions; density matrices of " \
               "dimension 1..4 with every single defect; vectors and density matrices to dimension 64"

    V = [0, 1, -1, 1j, 0.6, 0.8, -0.6j, 0.8j, 0.5, -0.5j]

    def shards(self, tier):
        return [["vec", n] for n in (4, 3, 2, 1)] + [["prob", n] for n in (4, 3, 2)] + [
            ["rho", n] for n in (4, 3, 2)] + [["shape", 0], ["long", 0], ["nan", 0], ["spike", 0]]

    def cases(self, shard, tier):
        what, n = shard
        if what == "vec":
            for v in itertools.product(range(len(self.V)), repeat=n):
                yield ["vec", list(v)]
        elif what == "prob":
            for N in range(1, 6):
                for c in lattice(n, N):
                    for x in range(3):
                        yield ["prob", list(c), N, x]
        elif what == "rho":
            for s in range(4):
                for defect in range(16):
                    for i in range(n):
                        for j in range(n):
                            yield ["rho", n, s, defect, i, j]
        elif what == "long":
            for d in (5, 6, 8, 9, 16, 32, 33, 64):
                for s in range(3):
                    yield ["rho", d, s, 0, 0, 0]
                    for defect in range(1, 16):
                        for i, j in ((0, d - 1), (d - 1, 0), (d // 2, d // 2 - 1), (1, 3)):
                            yield ["rho", d, s, defect, i, j]
                    for k in range(6):
                        yield ["lvec", d, s, k]
        elif what == "spike":
            for d in (2, 3, 4, 5, 16):
                for i in range(d):
                    for e in (1e-2, 1e-3, 1e-4, 2e-5, 1e-5, 4e-6, 1e-6, 1e-7, 1e-9, 1e-12):
                        yield ["spike", d, i, e]
        elif what == "nan":
            for d in (1, 2, 3):
                for i in range(d):
                    for k in range(3):
                        yield ["nan", d, i, k]
        else:
            for a in range(1, 5):
                for b in range(1, 5):
                    yield ["shape", a, b]

    @staticmethod
    def rejected(f, x):
        try:
            f(x)
        except (AssertionError, ValueError):
            return True
        return False

    def run(self, case, rec):
        what = case[0]
        rec.state(case)
        rec.trans()
        rec.trace()
        cast, pdf = ff.cast_to_density_matrix, ff.cast_to_pdf
        if what == "vec":
            v = np.array([self.V[i] for i in case[1]])
            l2 = np.linalg.norm(v)
            l1 = np.abs(v).sum()
            if abs(l2 - 1) < 1e-9:
                want = np.outer(v, v.conj())
                for x in [v, v.reshape(-1, 1), v.reshape(1, -1), v.tolist(), -v, 1j * v] + [ref.wrap(v, k) for k in (1, 2, 3)]:
                    rec.check(ref.dist(cast(x), want) < 1e-12, "wavefunction cast wrong")
                    rec.check(ref.dist(pdf(x), np.abs(v) ** 2) < 1e-12, "populations wrong")
                rec.outcome(tuple(np.round(np.abs(v) ** 2, 6)))
            elif abs(l1 - 1) < 1e-9 and not np.iscomplexobj(v):
                if (v >= 0).all():
                    rec.check(ref.dist(cast(v), np.diag(v)) < 1e-12, "distribution cast wrong")
                else:
                    rec.check(self.rejected(cast, v), "negative probability accepted")
            elif not (abs(l1 - 1) < 1e-9):
                for x in (v, v.reshape(-1, 1), v.reshape(1, -1), v.tolist()):
                    rec.check(self.rejected(cast, x) and self.rejected(pdf, x),
                              "unnormalised vector accepted")
            return
        if what == "nan":
            d, i, k = case[1:]
            x = np.eye(d)[0].astype(complex)
            x[i] = [math.nan, math.inf, complex(0, math.nan)][k]
            rec.check(self.rejected(cast, x) and self.rejected(pdf, x), "vector with NaN or inf accepted")
            for j in range(d):
                M = np.eye(d, dtype=complex) / d
                M[i, j] = x[i]
                rec.check(self.rejected(cast, M) and self.rejected(pdf, M), "matrix with NaN or inf accepted")
            return
        if what == "spike":  # nearly deterministic: both norms are close to 1
            d, i, e = case[1:]
            for rest in (np.eye(d)[i - 1], np.ones(d) / d, np.arange(d) / (d * (d - 1) / 2)):
                p = (1 - e) * np.eye(d)[i] + e * rest
                for x in (p, p.tolist(), p.reshape(-1, 1), p.reshape(1, -1)):
                    rec.check(ref.dist(cast(x), np.diag(p)) < 1e-14 and ref.dist(pdf(x), p) < 1e-14,
                              "nearly deterministic distribution cast wrong")
                w = math.sqrt(1 - e * e) * np.eye(d)[i] + e * (rest * (1 - np.eye(d)[i]))
                w = w / np.linalg.norm(w)
                for x in (w, w.tolist(), -w, 1j * w, w.reshape(-1, 1), w * np.exp(2j)):
                    rec.check(ref.dist(cast(x), np.outer(w, w)) < 1e-14 and ref.dist(pdf(x), w * w) < 1e-14,
                              "wavefunction close to a basis state cast wrong")
            return
        if what == "lvec":
            d, s, k = case[1:]
            v = ref.dense(s, (d,))
            if k == 0:  # real, with negative amplitudes
                v = v.real
            elif k == 1:
                v = np.eye(d, dtype=int)[(7 * s + 3) % d]
            elif k == 2:
                v = np.where(np.arange(d) % 2, v, 0)
            elif k == 5:
                v = np.eye(d)[(5 * s + 1) % d] + 1e-3 * v
            if k != 1:
                v = v / np.linalg.norm(v)
            if k == 4:  # the populations themselves
                p = np.abs(v) ** 2
                for x in (p, p.tolist(), p.reshape(-1, 1), p.reshape(1, -1)):
                    rec.check(ref.dist(cast(x), np.diag(p)) < 1e-14 and ref.dist(pdf(x), p) < 1e-14,
                              "distribution over %d outcomes cast wrong" % d)
                return
            for x in (v, v.reshape(-1, 1), v.reshape(1, -1), v.tolist(), 1j * v):
                rec.check(ref.dist(cast(x), np.outer(v, np.conj(v))) < 1e-14, "wavefunction cast wrong")
                q = pdf(x)
                rec.check(ref.dist(q, np.abs(v) ** 2) < 1e-14 and not np.iscomplexobj(q), "populations wrong")
            for f in (1.01, 0.99, 1.2, 0.5, 1 + 3e-5, 1 - 3e-5, 1.001):
                w = v * f
                if abs(np.abs(w).sum() - 1) > 1e-4:
                    rec.check(self.rejected(cast, w) and self.rejected(pdf, w), "norm %s accepted", f)
            return
        if what == "prob":
            c, N, x = case[1:]
            p = np.array(c) / N
            if x == 0:
                ys = [p, p.tolist(), p.reshape(-1, 1), p.reshape(1, -1)] + [ref.wrap(p, k) for k in (1, 2, 3)]
                if max(c) == N:  # deterministic: also integers and booleans
                    ys += [p.astype(T) for T in (int, np.int8, np.uint8, bool, np.float32)] + [p.astype(int).tolist()]
                    ys += [np.diag(p).astype(T) for T in (int, np.int8, bool, np.float32, np.complex64)]
                for y in ys:
                    rec.check(ref.dist(cast(y), np.diag(p)) < 1e-12, "distribution cast wrong")
                    q = pdf(y)
                    rec.check(ref.dist(q, p) < 1e-12 and not np.iscomplexobj(q), "pdf wrong")
                rec.outcome(tuple(p))
            elif x == 1:
                for f in (1.01, 0.99, 1.001, 1 + 3e-5, 1 - 3e-5):
                    if abs(np.linalg.norm(p * f) - 1) > 2e-5:
                        rec.check(self.rejected(cast, p * f), "sum %s accepted", f)
            else:
                q = np.diag(p).astype(complex)
                rec.check(ref.dist(pdf(q), p) < 1e-12, "populations of a density matrix")
            return
        if what == "shape":
            a, b = case[1:]
            if min(a, b) > 1 and a != b:
                rec.check(self.rejected(cast, np.ones((a, b)) / a), "non-square accepted")
            rec.check(self.rejected(cast, np.zeros((a, b))), "zero array accepted")
            if a > 1:
                rec.check(self.rejected(cast, np.ones((a, a, a)) / a), "3-dimensional array accepted")
            return
        n, s, defect, i, j = case[1:]
        U = ref.unitary(s, n)
        p = np.arange(n) / (n * (n - 1) / 2) if n > 1 else np.ones(1)
        if s == 3:
            U, p = np.eye(n), np.full(n, 1 / n)

        def mk(p):
            r = (U * p) @ U.conj().T
            return (r + r.conj().T) / 2

        rho = mk(p)
        if defect == 0:
            for x in [rho, rho.tolist()] + [ref.wrap(rho, k) for k in (1, 2, 3)]:
                rec.check(ref.dist(cast(x), rho) < 1e-12, "valid density matrix altered")
            rec.check(ref.dist(pdf(rho), np.diag(rho).real) < 1e-12, "populations wrong")
            rec.check(not np.iscomplexobj(pdf(rho)), "populations not real")
            return
        if defect >= 10:
            if i == j:
                return
            bad = rho.astype(complex)
            if defect < 12:
                bad *= 1 + [3e-5, -3e-5][defect - 10]
            elif defect < 14:
                bad[i, j] += [3e-5, 3e-5j][defect - 12]
            else:
                q = p.copy()
                q[i] = -3e-12 if defect == 14 else -1e-7
                q[j] = 0
                q[j] = 1 - q.sum()
                bad = mk(q)
        elif defect == 1:
            bad = rho * 1.002
        elif defect == 2:
            bad = rho * 0.99
        elif defect in (3, 4):
            if i == j:
                return
            bad = rho.astype(complex)
            bad[i, j] += 1e-3 * (1 if defect == 3 else 1j)
        elif defect in (5, 6, 7, 8):
            q = p.copy()
            if n < 2 or i == j:
                return
            e = [0.3, 1e-3, 1e-6, 1e-9][defect - 5]
            q[i] = -e
            q[j] = 0
            q[j] = 1 - q.sum()
            bad = mk(q)
        else:
            q = p.copy()
            if i == j:
                return
            q[i] = -3e-13
            q[j] = 0
            q[j] = 1 - q.sum()
            if n < 2:
                return
            rec.check(not self.rejected(cast, mk(q)), "rounding noise rejected")
            rec.check((pdf(np.diag(q)) >= 0).all(), "negative population returned")
            return
        rec.check(self.rejected(cast, bad), "invalid density matrix accepted (defect %d)", defect)
        rec.check(self.rejected(pdf, bad), "invalid density matrix accepted by the pdf cast")


class PartialTraces(Space):
    rule = ("state = (subsystem dimensions, matrix unit); transition = adding one matrix unit to a "
            "background (linearity); trace = one reduced matrix compared entrywise")

    def bounds(self, tier):
        return "all (d1, d2) with d1*d2 <= %d, every matrix unit; dense to 16 x 8 and 2 x 64 in several dtypes and " \
               "layouts, single entries from 1e-6 to 1e6 on a dense background" % (
                   12 if tier == "quick" else 24)

    def shards(self, tier):
        top = 12 if tier == "quick" else 24
        dims = [(a, b) for a in range(1, top + 1) for b in range(1, top + 1) if a * b <= top]
        return [["unit", a, b] for a, b in dims[::-1]] + [["dense", a, b] for a, b in (
            (2, 2), (2, 4), (4, 2), (3, 2), (2, 3), (4, 4), (2, 8), (8, 2), (1, 4), (4, 1), (5, 4), (4, 5), (3, 8),
            (8, 3), (16, 2), (2, 16), (8, 8), (3, 7), (1, 9), (9, 1), (6, 6), (9, 7), (10, 10), (16, 8), (2, 64), (64, 2), (1, 33), (12, 11))] + [
            ["bad", 0, 0]]

    def cases(self, shard, tier):
        what, a, b = shard
        if what == "unit":
            D = a * b
            for i in range(D):
                for j in range(D):
                    for v in range(8 if D <= 12 else 3):
                        yield [what, a, b, i, j, v]
        elif what == "dense":
            for s in range(3):
                for kind in ("complex", "real", "int", "int8", "uint8", "bool", "float32", "complex64"):
                    for lay in ("C", "F", "strided", "readonly"):
                        yield [what, a, b, s, kind, lay]
        else:
            for D in list(range(1, 13)) + [16, 20, 32]:
                for d in range(2, 40):
                    if D % d:
                        yield ["bad", D, d]

    def run(self, case, rec):
        what = case[0]
        rec.state(case)
        rec.trans()
        rec.trace(2)
        if what == "bad":
            M = np.eye(case[1])
            for f in (ff.partial_trace_over_1, ff.partial_trace_over_2):
                try:
                    f(M, case[2])
                except (AssertionError, ValueError):
                    continue
                rec.fail("dimension %d accepted for a %d-dimensional system" % (case[2], case[1]))
            return
        a, b = case[1:3]
        D = a * b
        if what == "unit":
            i, j, v = case[3:]
            M = np.zeros((D, D), dtype=complex)
            if v == 1:
                M = ref.dense(2, (D, D))
            if v >= 3:
                M += ref.dense(5, (D, D)) if v < 5 else ref.dense(5, (D, D)).real if v == 7 else 0
            M[i, j] += [1, 2 - 1j, -0.5, 1e-4j, 1e-6, 1e6, 3e-7j, 4e-8j][v]
            if v == 2:
                M = M.real
        else:
            if case[4] in ("int8", "uint8", "bool"):
                M = ref.dense(case[3], (D, D), "int") * 41
                M = (abs(M) > 60 if case[4] == "bool" else M % 251 if case[4] == "uint8" else M % 121 - 3)
                M = M.astype(case[4])
            elif case[4] in ("float32", "complex64"):
                M = ref.dense(case[3], (D, D), "complex" if case[4] == "complex64" else "real").astype(case[4])
            else:
                M = ref.dense(case[3], (D, D), case[4])
            M = ref.layouts(M)[case[5]]
        T = np.asarray(M).astype(complex if np.iscomplexobj(M) else float).reshape(a, b, a, b)
        keep = M.copy()
        over1 = sum(T[k, :, k, :] for k in range(a))
        over2 = sum(T[:, k, :, k] for k in range(b))
        g1, g2 = ff.partial_trace_over_1(M, b), ff.partial_trace_over_2(M, a)
        tol = (1e-12 if T.dtype == np.asarray(M).dtype or np.asarray(M).dtype.kind in "iub" else 1e-5) * (
            1 + np.abs(T).max())
        rec.check(np.shape(g1) == (b, b) and ref.dist(g1, over1) < tol, "trace over the first factor wrong")
        rec.check(np.shape(g2) == (a, a) and ref.dist(g2, over2) < tol, "trace over the second factor wrong")
        rec.check(np.array_equal(M, keep), "argument modified")
        if what == "dense":
            A, B = ref.dense(7, (a, a)), ref.dense(8, (b, b))
            K = np.kron(A, B)
            rec.check(ref.dist(ff.partial_trace_over_1(K, b), np.trace(A) * B) < 1e-10, "product state")
            rec.check(ref.dist(ff.partial_trace_over_2(K, a), np.trace(B) * A) < 1e-10, "product state")
            rec.trace(2)
        rec.outcome(np.round(over1, 9).tobytes())


class DirectSum(Space):
    rule = ("state = pair of matrices; transition = one entry set, or a third summand "
            "(associativity); trace = one direct sum compared block by block")

    def bounds(self, tier):
        return "all pairs of shapes to %dx%d, and longer ones, all entries, 3 dtypes, 4 layouts" % (
            (4, 4) if tier == "quick" else (5, 5))

    def shards(self, tier):
        m = 4 if tier == "quick" else 5
        return [[a, b] for a in range(m, 0, -1) for b in range(m, 0, -1)] + [
            [a, b] for a, b in ((1, 7), (7, 1), (5, 2), (6, 6), (2, 9), (16, 16), (10, 3), (7, 8), (9, 5), (33, 2), (64, 64))]

    def cases(self, shard, tier):
        a, b = shard
        m = 4 if tier == "quick" else 5
        lays = ("C", "F", "strided", "readonly")
        for c, d in list(itertools.product(range(1, m + 1), repeat=2)) + [(1, 7), (7, 1), (6, 5), (9, 9), (16, 2)]:
            for ka in ("int", "real", "complex"):
                for kb in ("int", "real", "complex"):
                    for i, lay in enumerate(lays):
                        yield [a, b, c, d, ka, kb, lay, lays[(i + c + d) % 4]]

    def run(self, case, rec):
        a, b, c, d, ka, kb, lay, lay2 = case
        rec.state(case)
        rec.trace()
        rec.trans()
        A = ref.layouts(ref.dense(1, (a, b), ka))[lay]
        B = ref.layouts(ref.dense(2, (c, d), kb) * (10**6 if (a + d) % 3 == 0 else 1))[lay2]
        want = np.zeros((a + c, b + d), dtype=complex)
        want[:a, :b], want[a:, b:] = A, B
        got = ff.kron_plus(A, B)
        rec.check(ref.dist(got, want) == 0, "direct sum wrong")
        for T, V in (((np.int8, np.float32), (np.uint64, np.complex64), (bool, np.int64), (np.int16, bool), (np.int8, np.uint8))
                     if lay == "C" and ka == kb == "int" else ()):
            X, Y = np.abs(A).astype(T), np.abs(B).astype(np.int32).astype(V)
            want = np.zeros((a + c, b + d), dtype=complex)
            want[:a, :b], want[a:, b:] = X, Y
            rec.check(ref.dist(ff.kron_plus(X, Y), want) == 0, "direct sum of %s and %s wrong", np.dtype(T), np.dtype(V))
        C = np.array([[5.0, 6.0]])
        rec.trans()
        rec.check(ref.dist(ff.kron_plus(ff.kron_plus(A, B), C), ff.kron_plus(A, ff.kron_plus(B, C))) == 0,
                  "not associative")
        rec.outcome((a, b, c, d))


# --------------------------------------------------------------------------
MAGS = [0.0, 1.0, -1.0, 2.5, 1 / 3, -2 / 3, 123.456789, 7e-3, -4e-4, 7e-7, 3e-7, -6e-7, 2.4e-6,
        -9.6e-6, 4e-8, 6e-10, -3e-12, 1e-15, 0.1234567891234]
THR = [1e-6, 6, 1e-3, 3, 9, 1e-9, 12, 3e-6, 1e-2, 1]


def clean_ref(x, thr, nd):
    return 0.0 if abs(x) < thr else round(x, nd) if not isinstance(x, complex) else complex(
        round(x.real, nd), round(x.imag, nd))


class Clean(Space):
    rule = ("state = (value(s), threshold, container); transition = cleaning an already cleaned value "
            "(idempotence); trace = one cleaned value compared")

    def bounds(self, tier):
        return "%d magnitudes (and all pairs as complex numbers) x %d thresholds x 7 containers" % (
            len(MAGS), len(THR))

    def shards(self, tier):
        return [[k] for k in range(len(THR))]

    def cases(self, shard, tier):
        t = shard[0]
        for i in range(len(MAGS)):
            yield ["r", t, i]
            for j in range(len(MAGS)):
                yield ["c", t, i, j]

    def run(self, case, rec):
        kind, t = case[:2]
        thr = THR[t]
        if isinstance(thr, int):
            nd, th = thr, 10.0**-thr
        else:
            nd, th = -round(math.log10(thr)), thr
        x = MAGS[case[2]]
        if abs(abs(x) - th) < 1e-3 * th:
            return
        tol = 1e-15 * max(1, abs(x)) * 200
        rec.state(case)
        rec.trans()

        def same(got, want):
            return abs(complex(got) - complex(want)) <= tol and not (want == 0 and got != 0)

        def call(o):
            if case[2] == 1 and th == 1e-6 and not isinstance(thr, int):
                return ff.clean(o)  # the default threshold
            return ff.clean(o, thr)

        if kind == "r":
            want = clean_ref(x, th, nd)
            others = [5.0, x, -x, 1e-14, 0.25]
            rec.trace(6)
            rec.check(same(call(x), want), "scalar: %s -> %s, expected %s", x, call(x), want)
            rec.check(same(call(complex(x)), want), "complex scalar")
            wl = [clean_ref(o, th, nd) for o in others]
            for name, got in (("list", call(others)), ("array", call(np.array(others))),
                              ("complex array", call(np.array(others) + 0j)),
                              ("nested", np.ravel(call([others, others]))[:5]),
                              ("2-d", np.ravel(call(np.array([others, others])))[5:]),
                              ("matrix", np.ravel(np.asarray(call(np.matrix([others]))))),
                              ("F", np.ravel(call(np.asfortranarray([others, others])))[:5])):
                rec.check(len(got) == 5 and all(same(g, w) for g, w in zip(got, wl)),
                          "%s: %s -> %s, expected %s", name, others, got, wl)
            a = call(np.array(others))
            rec.check(np.array_equal(call(a), a), "not idempotent")
            rec.check(call(np.array([3, 0, -2])).tolist() == [3, 0, -2] if th <= 1 else True, "integers")
            for word in ([repr(x)] if x > 1e-4 else []) + (["%.16f" % x] if x >= 0 else []):
                s = call(word)
                rec.check(isinstance(s, str) and same(float(s), clean_ref(float(word), th, nd)),
                          "numeric string %s -> %s", word, s)
            rec.check(call("abc") == "abc" and call("1e-9x") == "1e-9x", "text changed")
            rec.outcome(want)
            return
        y = MAGS[case[3]]
        if abs(abs(y) - th) < 1e-3 * th:
            return
        z = complex(x, y)
        if abs(abs(z) - th) < 1e-3 * th:
            return
        rec.trace(3)
        if abs(y) < th:
            want = clean_ref(x, th, nd)
        else:
            want = complex(round(x, nd), round(y, nd))
        got = call(z)
        tol = 200e-15 * max(1, abs(x), abs(y))
        rec.check(same(got, want), "complex scalar %s -> %s, expected %s", z, got, want)
        if abs(y) < th:
            rec.check(not isinstance(got, complex), "negligible imaginary part kept")
        arr = [z, 1 + 2j, 1e-14 + 0j]
        wl = [0 if abs(v) < th else complex(round(v.real, nd), round(v.imag, nd)) for v in arr]
        g1, g2 = call(np.array(arr)), call(arr)
        if th <= 1:
            rec.check(all(same(g, w) for g, w in zip(g1, wl)), "complex array %s -> %s", arr, g1)
        rec.check(all(same(g, w) for g, w in zip(g2, wl)), "complex list %s -> %s", arr, g2)
        real = abs(y) < th  # all imaginary parts negligible: the real part is cleaned
        # imaginary and real parts that cancel in sums
        for name, pair in itertools.product(("array", "list", "2-d"), (
                [z, z.conjugate(), -z], [z, z.conjugate()], [z, -z], [z, z.conjugate(), -z, -z.conjugate()])):
            if name == "2-d":
                pair = pair[:2]
            g = call(np.array([pair])).ravel() if name == "2-d" else call(np.array(pair) if name == "array" else pair)
            if name == "list" and real:
                continue
            wl = [clean_ref(v.real, th, nd) if real else
                  0 if abs(v) < th else complex(round(v.real, nd), round(v.imag, nd)) for v in pair]
            rec.check(len(g) == len(pair) and all(same(a, w) for a, w in zip(g, wl)),
                      "complex %s %s -> %s, expected %s", name, pair, g, wl)
        if abs(y) < th:
            g = call(np.array([z, 3]))
            rec.check(not np.iscomplexobj(g) and same(g[0], clean_ref(x, th, nd)) and g[1] == 3,
                      "array with negligible imaginary parts -> %s", g)
        rec.outcome(want)


class FaultOut:
    """stdout whose k-th write fails; k = 0 never fails."""

    def __init__(self, k=0):
        self.k, self.n, self.buf = k, 0, []

    def write(self, s):
        self.n += 1
        if self.n == self.k:
            raise OSError("stdout write %d failed" % self.k)
        self.buf.append(s)
        return len(s)

    def flush(self):
        pass


NUM = re.compile(r"[-+]?(?:\d+\.?\d*|\.\d+)(?:e[-+]?\d+)?", re.I)


class Printing(Space):
    rule = ("state = (object, precision, ambient print options, fault point); transition = one stdout "
            "write failing; trace = one print observed: text and print options afterwards")

    OBJ = [1, 2.5, 1 / 3, 1e-12, 1 + 2j, 1 + 1e-14j, [1, 2 / 3, 1e-13], [1 + 1j, 2], [[1, 2], [3, 4.5]],
           [[1, 2], [3]], ["a", 1], [None], [], "text", None, {"k": 1}, (1, 2), 123456.789, -7e-5, 1 + 2e-5j,
           [2, 1 - 3e-7j], 4e-6j]

    def bounds(self, tier):
        return "%d objects + arrays, precisions 0..12, 4 ambient option sets, every fault point" % len(self.OBJ)

    def shards(self, tier):
        return [["p", k] for k in range(13)] + [["fmt", 0]]

    def objs(self):
        return self.OBJ + [np.array([1 / 3, 2e-14, 5]), np.eye(2) / 7, np.array([[1j, 1 / 3], [2, 3]]),
                           np.matrix([[1 / 3, 2]]), np.array([1 + 1e-15j, 2 / 3]), np.array(["x", "y"]),
                           np.zeros((2, 0)), np.array(2 / 3), np.arange(4), np.array([[1, 6e-4j], [2 / 3, -5e-7j]])]

    def cases(self, shard, tier):
        what, k = shard
        if what == "p":
            for o in range(len(self.objs())):
                for amb in range(4):
                    for fault in range(0, 4):
                        yield ["p", k, o, amb, fault]
        else:
            for i in range(len(MAGS)):
                for j in range(-1, len(MAGS)):
                    for prec in (None, 0, 1, 2, 6, 10):
                        yield ["fmt", i, j, prec]

    def run(self, case, rec):
        rec.state(case)
        rec.trans()
        rec.trace()
        if case[0] == "fmt":
            i, j, prec = case[1:]
            x = MAGS[i]
            z = x if j < 0 else complex(x, MAGS[j])
            s = ff.formatted_output(z) if prec is None else ff.formatted_output(z, prec)
            p = 6 if prec is None else prec
            nums = NUM.findall(s.replace("+ -", "-").replace("- -", "+"))
            want = [x] if j < 0 or abs(MAGS[j]) < 1e-10 else [x, MAGS[j]]
            rec.check(isinstance(s, str) and len(nums) == len(want), "%s -> %r", z, s)
            for t, w in zip(nums, want):
                rec.check(abs(float(t) - w) <= 0.5000001 * 10.0**-p + 1e-12, "%s -> %r", z, s)
                dec = len(t.split(".")[1]) if "." in t else 0
                rec.check(dec == p, "%d decimals in %r", dec, s)
            if j < 0 and i == 0:
                for o in ("abc", [1, 2], None, {"a": 1}):
                    rec.check(ff.formatted_output(o) == str(o), "non-numeric object")
            rec.outcome(s)
            return
        k, oi, amb, fault = case[1:]
        obj = self.objs()[oi]
        base = np.get_printoptions()
        keep_out = sys.stdout
        out = FaultOut(fault)
        raised = None
        try:
            if amb == 1:
                np.set_printoptions(precision=3)
            elif amb == 2:
                np.set_printoptions(precision=15, suppress=True, linewidth=40)
            elif amb == 3:
                np.set_printoptions(precision=0, threshold=5)
            before = np.get_printoptions()
            sys.stdout = out
            try:
                if k == 9:
                    ff.print_custom(obj)
                else:
                    ff.print_custom(obj, k)
            except OSError as e:
                raised = e
            finally:
                sys.stdout = keep_out
            after = np.get_printoptions()
        finally:
            sys.stdout = keep_out
            np.set_printoptions(**{x: y for x, y in base.items() if x != "override_repr"})
        rec.check(before == after, "print options changed: %s",
                  {x: (before[x], after[x]) for x in before if before[x] != after[x]})
        if fault == 0:
            rec.check(raised is None, "printing failed")
            text = "".join(out.buf)
            rec.check(text.endswith("\n"), "no output")
            self.content(obj, k, amb, text, rec)
        rec.outcome((oi, raised is not None))

    def content(self, obj, k, amb, text, rec):
        try:
            a = np.array(obj)
        except ValueError:
            a = None
        numeric = (isinstance(obj, (int, float, complex, list, np.ndarray)) and a is not None
                   and a.dtype.kind in "ifc" and a.size > 0)
        if not numeric:
            if isinstance(obj, (str, dict, tuple)) or obj is None:
                rec.check(text == str(obj) + "\n", "non-numeric object printed as %r", text)
            return
        if amb == 3:
            return
        if np.abs(a.imag).max() < 1e-10:
            rec.check("j" not in text, "negligible imaginary part printed: %r", text)
            nums = [float(x) for x in NUM.findall(text)]
            a = np.ravel(a.real)
            rec.check(len(nums) == len(a), "%d numbers printed for %d", len(nums), len(a))
            for x, y in zip(nums, a):
                rec.check(abs(x - y) <= 1.1 * 10.0**-k * max(1, 0) + 1e-12, "%s printed as %s", y, x)
                if abs(y) < 0.99 * 10.0**-k:
                    rec.check(x == 0, "%s not suppressed: %s", y, x)
        else:
            a = np.ravel(a)
            lost = np.abs(a.imag).max() <= 1.01 * 10.0**-k  # rounds to zero with this many decimals
            rec.check("j" in text or lost, "imaginary part lost: %r", text)
            nums = [float(x) for x in NUM.findall(text)]
            if a.size == 1 and "j" in text and len(nums) == 1:
                nums = [0.0] + nums  # Python writes a purely imaginary number without its real part
            want = [y for z in a for y in ((z.real, z.imag) if "j" in text else (z.real,))]
            rec.check(len(nums) == len(want), "%d numbers printed for %d: %r", len(nums), len(want), text)
            for x, y in zip(nums, want):
                rec.check(abs(x - y) <= 1.1 * 10.0**-k + 1e-12, "%s printed as %s", y, x)
