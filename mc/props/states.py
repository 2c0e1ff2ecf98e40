"""Random rotations, generators and states; seeds; paths between states; input rejection."""

import itertools
import math
import random

import numpy as np

import ff
from ff import ff_random_states as frs
from mc import env, ref
from mc.engine import Space
from mc.props.measures import canon, orbit

SEEDS = [0, 1, 2, 3, 7, 42, 1234, 2**31 - 1, 2**32 - 1]


def seeds(tier, k):
    return SEEDS + list(range(10, 10 + (k if tier == "quick" else 12 * k)))


def sources(tier, k, npos, pairs=None, nbase=1, prefix=0):
    """Where a draw gets its randomness: a seed, or the generator's outputs themselves."""
    assert env.selftest()
    out = list(seeds(tier, k))
    for b in range(nbase if tier == "quick" else 3 * nbase):
        for d in env.deviations(npos, len(env.VALUES), tier != "quick" if pairs is None else pairs):
            out.append(["words", b, d])
    for d in env.prefixes(prefix, 4):
        out.append(["words", 0, d])
    return out


def draw(f, *args, src, **kw):
    """Call a generator with the given source of randomness."""
    if isinstance(src, int):
        return f(*args, seed=src, **kw)
    env.set_numpy(env.doubles(src[1], src[2]))
    return f(*args, **kw)


WORDS = ("the sampler's outcomes are enumerated through its seeds, and through the generator's own outputs: a base "
         "stream with every single one (thorough: every pair) of the first doubles replaced by 2^-30, 1-2^-30, "
         "1/2+2^-20, 1/2-2^-11, 1/4, 3/4")


def lift_pf(M, idx):
    """Pfaffian of the submatrix of an antisymmetric matrix."""
    if not idx:
        return 1.0
    i, rest = idx[0], idx[1:]
    t = 0
    for k, j in enumerate(rest):
        if abs(M[i, j]) > 0:
            t = t + (-1) ** k * M[i, j] * lift_pf(M, rest[:k] + rest[k + 1:])
    return t


def gaussian_defect(rho, n):
    """Largest deviation of any Majorana monomial from Wick's theorem."""
    g = [x * math.sqrt(2) for x in ref.majoranas(n)]
    m = 2 * n
    G = np.array([[np.trace(rho @ g[i] @ g[j]) if i != j else 0 for j in range(m)] for i in range(m)])
    worst = 0.0
    for mask in range(1 << m):
        idx = tuple(i for i in range(m) if mask >> i & 1)
        op = rho
        for i in idx:
            op = op @ g[i]
        want = lift_pf(G, idx) if len(idx) % 2 == 0 else 0
        worst = max(worst, abs(np.trace(op) - want))
    return worst


def check_density(rec, rho, d, what="state"):
    rho = np.asarray(rho)
    rec.check(rho.shape == (d, d), "%s has shape %s", what, rho.shape)
    rec.check(np.isfinite(rho).all(), "%s not finite", what)
    rec.check(ref.dist(rho, rho.conj().T) < 1e-8, "%s not Hermitian", what)
    rec.check(abs(np.trace(rho) - 1) < 1e-8, "%s: trace %s", what, np.trace(rho))
    rec.check(np.linalg.eigvalsh((rho + rho.conj().T) / 2).min() > -1e-9, "%s not positive", what)


def check_ket(rec, psi, d):
    psi = np.asarray(psi)
    rec.check(psi.shape == (d, 1), "state has shape %s", psi.shape)
    rec.check(abs(np.linalg.norm(psi) - 1) < 1e-8, "norm %s", np.linalg.norm(psi))


class Rotation(Space):
    rule = ("state = (sites, seed); transition = one mode operator conjugated by the drawn rotation; "
            "trace = one drawn rotation, generator or orbital matrix compared with the others")
    assumptions = [WORDS]
    NPOS = {1: 12, 2: 24, 3: 32}

    def bounds(self, tier):
        return "1..4 sites x %d seeds, %s, each form of the result; 1..3 sites x %s" % (
            len(seeds(tier, 15)), "5 x 4" if tier == "quick" else "5 and 6 alike",
            "one deviation in the first 12/24/32 doubles" if tier == "quick" else
            "one or two deviations in the first 12/24/32 doubles (two: 1 and 2 sites)")

    def shards(self, tier):
        ns = (4, 3, 2, 1) if tier == "quick" else (6, 5, 4, 3, 2, 1)
        out = [[n, s, 0] for n in ns for s in seeds(tier, 15)]
        if tier == "quick":
            out = [[5, s, 0] for s in (0, 3, 42, 11)] + out
        return out + [[n, "words", r] for n in (3, 2, 1) for r in range(4)]

    def cases(self, shard, tier):
        n, s, r = shard
        if s != "words":
            yield [n, s]
            return
        pairs = tier != "quick" and n < 3
        for i, d in enumerate(env.deviations(self.NPOS[n], len(env.VALUES), pairs)):
            if i % 4 == r:
                yield [n, ["words", n, d]]

    def run(self, case, rec):
        n, s = case
        d = 2**n
        rec.state(case)
        W = draw(ff.random_FF_rotation, n, src=s)
        C = draw(ff.random_FF_rotation, n, src=s, returnOrb=True)
        G = draw(ff.random_FF_rotation, n, src=s, returnH=True)
        rec.trace(3)
        rec.check(np.shape(W) == (d, d) and np.shape(G) == (d, d), "operator shape")
        rec.check(np.shape(C) == (2 * n, 2 * n), "orbital matrix shape")
        rec.check(ref.dist(W @ W.conj().T, np.eye(d)) < 1e-8, "rotation not unitary")
        rec.check(ref.dist(G, np.conj(G).T) < 1e-8, "generator not Hermitian")
        rec.check(ref.dist(ref.herm_exp(np.asarray(G), -1j), W) < 1e-7,
                  "rotation is not exp(-i generator)")
        rec.check(ref.dist(C @ C.conj().T, np.eye(2 * n)) < 1e-9, "orbital matrix not unitary")
        S = ref.swapmat(n)
        rec.check(ref.dist(C @ S @ C.T, S) < 1e-9, "orbital matrix breaks the anticommutators")
        al = ref.alphas(n)
        for j in range(2 * n):
            rec.trans()
            want = sum(C[j, i] * al[i] for i in range(2 * n))
            rec.check(ref.dist(W.conj().T @ al[j] @ W, want) < 1e-7,
                      "mode operator %d not rotated by the orbital matrix", j)
        om = ref.omega(n)
        O = om @ C @ om.conj().T
        rec.check(np.abs(O.imag).max() < 1e-9 and abs(np.linalg.det(O.real) - 1) < 1e-8,
                  "not a special orthogonal rotation of the Majoranas")
        rec.check(ref.dist(ref.parity(n) @ W, W @ ref.parity(n)) < 1e-7, "rotation breaks parity")
        rec.outcome(tuple(np.round(np.diag(C), 4)))


class Generator(Space):
    rule = ("state = (sites, seed, number conserving?); transition = one block of the drawn matrix "
            "checked; trace = one drawn generator lifted and checked")
    assumptions = Rotation.assumptions

    def bounds(self, tier):
        return "1..10, 12, 16, 20 and 33 sites x %d seeds x both modes; 1..3 sites x %s deviations in the first 4/20/40 doubles" % (
            len(seeds(tier, 30)), "0 or 1" if tier == "quick" else "0 to 2")

    def shards(self, tier):
        return [[n, f] for n in (33, 20, 16, 12, 10, 9, 8, 7, 6, 5, 4, 3, 2, 1) for f in (False, True)]

    def cases(self, shard, tier):
        n = shard[0]
        for s in sources(tier, 30, {1: 4, 2: 20, 3: 40}[n]) if n < 4 else seeds(tier, 30):
            yield shard + [s]

    def run(self, case, rec):
        n, fixed, s = case
        generic = isinstance(s, int)
        H = np.asarray(draw(ff.random_H_generator, n, fixedN=fixed, src=s))
        rec.state(case)
        rec.trace()
        rec.trans(4)
        rec.check(H.shape == (2 * n, 2 * n), "shape %s", H.shape)
        if not fixed:
            rec.check(ref.dist(draw(ff.random_H_generator, n, src=s), H) < 1e-9, "the default is not the generic generator")
        rec.check(ref.dist(H, H.conj().T) < 1e-10, "not Hermitian")
        S = ref.swapmat(n)
        rec.check(ref.dist(S @ H.conj() @ S, -H) < 1e-10, "not particle-hole symmetric")
        rec.check(np.isfinite(H).all(), "not finite")
        rec.check(np.abs(np.imag(H)).max() > 1e-6 or n == 1 or not generic, "no imaginary part")
        B = H[:n, n:]
        if fixed:
            rec.check(np.abs(B).max() < 1e-12, "pairing in a number-conserving generator")
        elif n > 1 and generic:
            rec.check(np.abs(B).max() > 1e-9, "no pairing")
            for name, M in (("pairing", B), ("hopping", H[:n, :n])):
                v = M[np.triu_indices(n, 1)]
                for x, y in itertools.combinations(v, 2):
                    rec.check(abs((x * y.conjugate()).imag) > 1e-9 * abs(x * y),
                              "two %s entries share their phase", name)
        if n <= 4:
            op = ref.quad(H, ref.alphas(n))
            got = ff.build_op(n, H, ff.jordan_wigner_alphas(n))
            rec.check(ref.dist(got, op) < 1e-9, "lifted generator differs")
            N = ref.number(n)
            com = np.abs(op @ N - N @ op).max()
            rec.check(com < 1e-9 if fixed else (com > 1e-9 or n == 1 or not generic), "commutator with N is %g", com)
        rec.outcome(tuple(np.round(np.diag(H), 6)))


class FFStates(Space):
    rule = ("state = (generator function, options, sites, seed); transition = one Majorana monomial "
            "expectation compared with Wick's theorem; trace = one drawn state validated")
    assumptions = Rotation.assumptions

    PURE = ["pure", "W0", "WN", "CN"]
    KINDS = ["mixed", "fixedN", "pure", "randH", "rotPDF", "W0", "WN", "CN"]

    def bounds(self, tier):
        return "8 generators x 1..3 sites x %d seeds, 4 sites x %d (all N where N is an argument), the pure ones to 5 sites; 1..2 sites x %s " \
               "deviations in the first 16 doubles; 3 sites x %s" % (
                   len(seeds(tier, 10)), 3 if tier == "quick" else 12,
                   "0 or 1" if tier == "quick" else "0 to 2", "seeds" if tier == "quick" else "one deviation")

    def shards(self, tier):
        out = [[k, n] for n in (3, 2, 1) for k in self.KINDS]
        out = [["pureN", 2]] + out + [["reach", n] for n in (1, 2, 3, 4)]
        return [[k, 5] for k in self.PURE] + [[k, 4] for k in self.KINDS] + out

    def cases(self, shard, tier):
        k, n = shard
        if k == "reach":
            yield [k, n, 0, None]
            yield [k, n, 1, None]
            return
        ss = seeds(tier, 10)
        if n >= 4:
            ss = ss[:12 if tier != "quick" else 3 if n == 4 else 2]
        elif n < 3:
            ss = sources(tier, 10, 16)
        elif tier != "quick":
            ss = sources(tier, 10, 24, pairs=False)
        for s in ss:
            if k == "WN":
                for N in [None] + list(range(n + 1)):
                    yield [k, n, s, N]
            else:
                yield [k, n, s, None]

    def run(self, case, rec):
        k, n, s, N = case
        d = 2**n
        rec.state(case)
        rec.trace()
        P = ref.parity(n)
        if k == "reach":  # without a given number of particles both parities occur
            f = [ff.random_FF_pure_state_CN, ff.random_FF_pure_state_WN][s]
            got = set()
            for x in range(64):
                psi = np.asarray(f(n, seed=x))
                rec.trans()
                got.add(round((psi.conj().T @ P @ psi).item().real))
            rec.check(got == {1, -1}, "only the parities %s occur", sorted(got))
            return
        if k in ("mixed", "fixedN"):
            fx = k == "fixedN"
            rho, H = draw(ff.random_FF_state, n, fixedN=fx, src=s, returnH=True)
            check_density(rec, rho, d)
            rec.check(ref.dist(H, np.conj(H).T) < 1e-8, "generator not Hermitian")
            rec.check(ref.dist(draw(ff.random_FF_state, n, fixedN=fx, src=s), rho) < 1e-9,
                      "asking for the generator changes the state")
            if not fx:
                rec.check(ref.dist(draw(ff.random_FF_state, n, src=s), rho) < 1e-9, "the default is not the generic mixed state")
            w, V = np.linalg.eigh(np.asarray(H))
            p = np.diag(V.conj().T @ rho @ V).real
            # the temperature from the highest level whose population is clear of rounding
            up = [j for j in range(d) if w[j] > w[0] + 1e-6]
            i = max([j for j in up if p[j] > 1e-8] or up[:1] or [d - 1])
            beta = 1.0
            if up:
                beta = (math.log(p[0]) - math.log(max(p[i], 1e-300))) / (w[i] - w[0])
                rec.check(beta > 0, "negative temperature")
            if not up or p[up[0]] > 1e-9:
                rec.check(ref.dist(ref.gibbs(beta * np.asarray(H)), rho) < 1e-6,
                          "state is not thermal for the returned generator")
            if fx:
                Nop = ref.number(n)
                rec.check(ref.dist(rho @ Nop, Nop @ rho) < 1e-8 and ref.dist(H @ Nop, Nop @ H) < 1e-8,
                          "number is not conserved")
            elif n > 1:
                Nop = ref.number(n)
                rec.check(ref.dist(H @ Nop, Nop @ H) > 1e-6, "the generic generator conserves the number")
        elif k in ("pure", "pureN"):
            psi, H = draw(ff.random_FF_state, n, fixedN=k == "pureN", src=s, returnH=True, pure=True)
            check_ket(rec, psi, d)
            rho = psi @ psi.conj().T
            rec.check(ref.dist(H, np.conj(H).T) < 1e-8, "generator not Hermitian")
            rec.check(ref.dist(draw(ff.random_FF_state, n, fixedN=k == "pureN", src=s, pure=True), psi) < 1e-9,
                      "asking for the generator changes the state")
            rec.check(ref.dist(ref.herm_exp(np.asarray(H), -1j)[:, :1], psi) < 1e-7,
                      "state is not exp(-i generator)|vacuum>")
            if isinstance(s, int):
                np.random.seed(s % 2**32)
            else:
                env.set_numpy(env.doubles(s[1], s[2]))
            free, G = ff.random_FF_state(n, fixedN=k == "pureN", returnH=True, pure=True)
            check_ket(rec, free, d)
            rec.check(ref.dist(ref.herm_exp(np.asarray(G), -1j)[:, :1], free) < 1e-7,
                      "without a seed, the state is not exp(-i generator)|vacuum>")
            if k == "pureN":
                Nop = ref.number(n)
                if ref.dist(H @ Nop, Nop @ H) > 1e-8:
                    rec.fail("pure state with fixedN: generator does not commute with N", "pure-fixedN")
        elif k == "randH":
            rho = draw(ff.random_FF_state_randH, n, src=s)
            check_density(rec, rho, d)
            if isinstance(s, int) and s < 16 and n <= 2:  # rare draws can be as cold as rounding
                rec.check(np.linalg.eigvalsh(rho)[-1] < 1 - 1e-12, "thermal state is pure")
        elif k == "rotPDF":
            rho, p = draw(ff.random_FF_state_rotPDF, n, returnS=True, src=s)
            check_density(rec, rho, d)
            rec.check(np.shape(p) == (d,) and abs(np.sum(p) - 1) < 1e-9 and np.min(p) >= 0,
                      "not a probability distribution")
            rec.check(ref.dist(np.sort(np.linalg.eigvalsh(rho)), np.sort(p)) < 1e-8,
                      "spectrum is not the returned distribution")
            rec.check(ref.dist(draw(ff.random_FF_state_rotPDF, n, src=s), rho) < 1e-9,
                      "asking for the distribution changes the state")
            rec.check(ref.dist(rho @ P, P @ rho) < 1e-8, "no definite parity sectors")
            rec.check(ref.dist(draw(ff.random_FF_state_rotPDF, n, False, src=s), rho) < 1e-9, "positional arguments")
            rec.outcome(round(float(p[0]), 6))
            # eigenvectors are Gaussian: the projector on the largest eigenvalue is a Gaussian state
            w, V = np.linalg.eigh(rho)
            if n > 1 and w[-1] - w[-2] > 1e-4 and n <= 3:
                v = V[:, -1:]
                gd = gaussian_defect(v @ v.conj().T, n)
                rec.check(gd < 1e-6, "leading eigenvector is not Gaussian (%g)", gd)
            return
        else:
            if k == "W0":
                psi = draw(ff.random_FF_pure_state_W0, n, src=s)
                par = 1
            elif k == "WN":
                psi = draw(ff.random_FF_pure_state_WN, n, N=N, src=s)
                par = None if N is None else (-1) ** N
            else:
                psi = draw(ff.random_FF_pure_state_CN, n, src=s)
                par = None
            check_ket(rec, psi, d)
            rho = psi @ psi.conj().T
            e = np.trace(rho @ P).real
            rec.check(abs(abs(e) - 1) < 1e-8, "parity is not definite")
            rec.check(par is None or abs(e - par) < 1e-8, "parity %s, expected %s", e, par)
            if n < 5:
                rec.check(abs(ff.FAF(psi)) < 1e-6, "pure free-fermion state has FAF %s", ff.FAF(psi))
        if n == 5:  # a pure state is Gaussian exactly when its covariance matrix is
            m = ref.majoranas(n)
            v = np.hstack([x @ psi for x in m])
            K = 1j * (v.conj().T @ v - v.T @ v.conj())
            rec.trans(4 * n * n)
            rec.check(ref.dist(K @ K, -np.eye(2 * n)) < 1e-7, "not a free-fermion state: covariance is not pure")
            rec.outcome(tuple(np.round(np.abs(psi.ravel()) ** 2, 6)))
            return
        gd = gaussian_defect(rho, n)
        rec.trans(4**n)
        rec.check(gd < 1e-7, "not a free-fermion state: Wick defect %g", gd)
        rec.outcome(tuple(np.round(np.diag(rho).real, 6)))


class QubitStates(Space):
    rule = ("state = (generator, qubits, seed or sampler outcome); transition = one draw; trace = one "
            "state validated")
    assumptions = ["the external stabilizer sampler is replaced by a stand-in that returns each "
                   "stabilizer state in turn; the other samplers' outcomes are enumerated by seed and by generator output"]

    def bounds(self, tier):
        return "1..8 qubits (pure states: 10) x %d seeds; 1..3 qubits x one or two deviations in the generator's output; every stabilizer state of 1..%d qubits as sampler outcome" % (
            len(seeds(tier, 20)), 2 if tier == "quick" else 3)

    def shards(self, tier):
        return [["mixed", n] for n in (8, 7, 6, 5, 4, 3, 2, 1)] + [["pure", n] for n in (10, 9, 8, 7, 6, 5, 4, 3, 2, 1)] + [
            ["chp", n] for n in ((1, 2) if tier == "quick" else (1, 2, 3))]

    def cases(self, shard, tier):
        k, n = shard
        if k == "chp":
            for i in range({1: 6, 2: 60, 3: 1080}[n]):
                yield [k, n, i]
        else:
            for s in sources(tier, 20, {1: 8, 2: 12, 3: 16}[n], pairs=n < 3 or tier != "quick") if n < 4 else seeds(tier, 20):
                yield [k, n, s]

    def run(self, case, rec):
        k, n, s = case
        d = 2**n
        rec.state(case)
        rec.trace()
        rec.trans()
        if k == "mixed":
            rho = draw(frs.random_qubit_state, n, src=s)
            check_density(rec, rho, d)
            w = np.linalg.eigvalsh(rho)
            if not isinstance(s, int):
                rec.outcome(tuple(np.round(np.ravel(rho)[:3], 6)))
                return
            rec.check(w[-1] < 1 - 1e-9 and np.diff(w).min() > 1e-12 and w[0] > 1e-12, "not a generic mixed state: %s", w)
            rec.check(np.abs(rho - np.diag(np.diag(rho))).max() > 1e-9, "no coherences")
        elif k == "pure":
            psi = draw(ff.random_qubit_pure_state, n, src=s)
            check_ket(rec, psi, d)
            rec.check(np.abs(psi).min() > 0 or not isinstance(s, int), "vanishing amplitude in a generic state")
            rho = psi
        else:
            import stim

            st = self.table(n)
            stim.CHOICE = st[s]
            psi = ff.random_CHP_state(n)
            rec.check(np.shape(psi) == (d, 1), "state has shape %s", np.shape(psi))
            rec.check(abs(np.linalg.norm(psi) - 1) < 1e-5, "norm")
            rec.check(abs(ff.SRE(psi / np.linalg.norm(psi))) < 1e-4, "not a stabilizer state")
            got = np.ravel(psi)
            big = st[s].reshape((2,) * n).transpose().ravel()
            rec.check(min(ref.dist(got, st[s]), ref.dist(got, big)) < 1e-5,
                      "not the state the sampler drew")
            rho = psi
        rec.outcome(tuple(np.round(np.ravel(rho)[:3], 6)))

    _t = {}

    def table(self, n):
        if n not in self._t:
            z = np.zeros(2**n, dtype=complex)
            z[0] = 1
            self._t[n] = orbit(n, z, 5000)[0]
        return self._t[n]


class Bitstrings(Space):
    rule = ("state = (length, weight, drawn string); transition = one draw from one generator state; "
            "trace = one draw checked; every string of small length must be reached")
    assumptions = ["reachability is decided over the enumerated generator states (1500 seeds)"]

    def bounds(self, tier):
        return "lengths 0..12, 15, 16, 17, 20, 31..33, 64, 100, 257 with all weights -2..length+2, 60 seeds; eight weights for lengths to 5000; reachability to length %d, of both values at every position to length 257; every choice of " \
               "the generator's first %d words among 8 for lengths to 6" % (
                   (5, 4) if tier == "quick" else (7, 6))

    def shards(self, tier):
        return [["each", n] for n in (9, 12, 16, 17, 32, 33, 64, 65, 128, 257)] + [["words", n, 4 if tier == "quick" else 6] for n in range(6, 0, -1)] + [["long", 0]] + [["w", n] for n in [
            257, 100, 64, 33, 32, 31, 20, 17, 16, 15] + list(range(0, 13))] + [["reach", n] for n in range(1, 6 if tier == "quick" else 8)]

    def cases(self, shard, tier):
        kind, n = shard[:2]
        if kind == "words":
            for k in range(n + 1):
                for first in range(8):
                    yield [kind, n, k, shard[2], first]
            return
        if kind == "each":
            for k in sorted({1, 2, n // 2, n - 2, n - 1}):
                yield [kind, n, k]
            return
        if kind == "long":
            for n in (511, 1000, 1001, 1500, 5000):
                for k in (-1, 0, 1, n // 3, n // 2, n - 1, n, n + 1):
                    yield ["w", n, k]
            return
        for k in range(-2, n + 3) if kind == "w" else range(0, n + 1):
            yield [kind, n, k]

    def run(self, case, rec):
        kind, n, k = case[:3]
        seen = set()
        if kind == "words":
            settings = itertools.product([case[4]], *[range(8)] * (case[3] - 1))
        else:
            settings = range((60 if n < 20 else 5) if kind == "w" else 40 * n // min(k, n - k) if kind == "each" else 1500)
        for s in settings:
            if kind == "words":
                env.set_numpy(env.nibbles(n, s))
            else:
                np.random.seed(s)
            b = ff.generate_random_bitstring(n, k)
            rec.trace()
            rec.trans()
            if k < 0 or k > n:
                rec.check(b is None, "weight %d accepted for length %d", k, n)
                continue
            rec.check(isinstance(b, np.ndarray) and b.shape == (n,), "wrong length")
            rec.check(all(x in (0, 1) for x in b.tolist()) and sum(b.tolist()) == k, "weight %s", b)
            seen.add(tuple(b.tolist()))
        for x in seen:
            rec.state((n, k, x))
        if kind == "each":  # every position is taken by some draw and left free by another
            tot = sum(np.array(x) for x in seen)
            rec.check((tot > 0).all() and (tot < len(seen)).all(), "positions %s never vary",
                      np.flatnonzero((tot == 0) | (tot == len(seen))))
        if kind == "reach":
            rec.check(len(seen) == math.comb(n, k), "only %d of %d strings reached", len(seen),
                      math.comb(n, k))
        rec.outcome((n, k, len(seen)))


def flat(x):
    """A result as a list of arrays (a graph as its vertices and sorted edges)."""
    if isinstance(x, (tuple, list)):
        return [a for y in x for a in flat(y)]
    if hasattr(x, "edges"):
        return [np.array(list(x.nodes)), np.array(sorted(sorted(e) for e in x.edges))]
    return [np.asarray(x)]


def same(a, b):
    """Equal up to the rounding that memory alignment can cause in linear algebra."""
    return len(a) == len(b) and all(
        x.shape == y.shape and (x.size == 0 or np.max(np.abs(x - y)) < 1e-9) for x, y in zip(a, b))


def distinct(xs):
    """How many different results there are."""
    reps = []
    for x in xs:
        if not any(same(x, y) for y in reps):
            reps.append(x)
    return len(reps)


# (name, call(seed), is its output different for different seeds?)
SEEDED = [
    ("rotation", lambda s: ff.random_FF_rotation(2, seed=s)),
    ("rotation generator", lambda s: ff.random_FF_rotation(2, seed=s, returnH=True)),
    ("orbital rotation", lambda s: ff.random_FF_rotation(2, seed=s, returnOrb=True)),
    ("generator", lambda s: ff.random_H_generator(2, seed=s)),
    ("number-conserving generator", lambda s: ff.random_H_generator(2, fixedN=True, seed=s)),
    ("mixed state", lambda s: ff.random_FF_state(2, seed=s)),
    ("mixed state with generator", lambda s: ff.random_FF_state(2, seed=s, returnH=True)),
    ("fixed-N mixed state", lambda s: ff.random_FF_state(2, fixedN=True, seed=s)),
    ("pure state", lambda s: ff.random_FF_state(2, pure=True, seed=s)),
    ("pure state with generator", lambda s: ff.random_FF_state(2, pure=True, seed=s, returnH=True)),
    ("thermal state", lambda s: ff.random_FF_state_randH(2, seed=s)),
    ("rotated distribution", lambda s: ff.random_FF_state_rotPDF(2, seed=s)),
    ("rotated distribution + s", lambda s: ff.random_FF_state_rotPDF(2, returnS=True, seed=s)),
    ("rotated vacuum", lambda s: ff.random_FF_pure_state_W0(2, seed=s)),
    ("rotated Fock state", lambda s: ff.random_FF_pure_state_WN(2, seed=s)),
    ("rotated Fock state N=1", lambda s: ff.random_FF_pure_state_WN(2, N=1, seed=s)),
    ("orbital Fock state", lambda s: ff.random_FF_pure_state_CN(2, seed=s)),
    ("qubit mixed state", lambda s: frs.random_qubit_state(2, seed=s)),
    ("qubit pure state", lambda s: ff.random_qubit_pure_state(2, seed=s)),
    ("planar graph", lambda s: ff.generate_random_planar_graph(9, seed=s)),
]
MAIN = len(SEEDED)
SEEDED += [
    ("rotation of 3 sites", lambda s: ff.random_FF_rotation(3, seed=s)),
    ("rotation of 1 site", lambda s: ff.random_FF_rotation(1, seed=s)),
    ("rotation of 5 sites", lambda s: ff.random_FF_rotation(5, seed=s, returnOrb=True)),
    ("generator of 1 site", lambda s: ff.random_H_generator(1, seed=s)),
    ("generator of 7 sites", lambda s: ff.random_H_generator(7, seed=s)),
    ("mixed state of 1 site", lambda s: ff.random_FF_state(1, seed=s)),
    ("fixed-N mixed state of 3 sites", lambda s: ff.random_FF_state(3, fixedN=True, seed=s, returnH=True)),
    ("pure state of 3 sites", lambda s: ff.random_FF_state(3, pure=True, fixedN=True, seed=s)),
    ("thermal state of 1 site", lambda s: ff.random_FF_state_randH(1, seed=s)),
    ("thermal state of 4 sites", lambda s: ff.random_FF_state_randH(4, seed=s)),
    ("rotated distribution of 1 site", lambda s: ff.random_FF_state_rotPDF(1, seed=s)),
    ("rotated distribution of 3 sites", lambda s: ff.random_FF_state_rotPDF(3, seed=s, returnS=True)),
    ("rotated vacuum of 4 sites", lambda s: ff.random_FF_pure_state_W0(4, seed=s)),
    ("rotated Fock state N=0", lambda s: ff.random_FF_pure_state_WN(3, N=0, seed=s)),
    ("rotated Fock state N=3", lambda s: ff.random_FF_pure_state_WN(3, N=3, seed=s)),
    ("rotated Fock state of 3 sites", lambda s: ff.random_FF_pure_state_WN(3, seed=s)),
    ("orbital Fock state of 3 sites", lambda s: ff.random_FF_pure_state_CN(3, seed=s)),
    ("qubit mixed state of 1", lambda s: frs.random_qubit_state(1, seed=s)),
    ("qubit mixed state of 5", lambda s: frs.random_qubit_state(5, seed=s)),
    ("qubit pure state of 1", lambda s: ff.random_qubit_pure_state(1, seed=s)),
    ("qubit pure state of 6", lambda s: ff.random_qubit_pure_state(6, seed=s)),
    ("planar graph on 12", lambda s: ff.generate_random_planar_graph(12, seed=s)),
]
INTERFERE = [None] + [k for k in range(MAIN)] + ["bits", "jw", "global"]
NOSEED = [("bit string", lambda s: ff.generate_random_bitstring(40, 20))]


class SeedHistory(Space):
    rule = ("state = (generator, seed, history before the draw); transition = one call of the history; "
            "trace = one draw compared with the draw of a fresh process")

    def bounds(self, tier):
        return ("%d seeded generators x %d seeds x every history of one other call (seeded or not), and "
                "every history of two calls on a reduced set; all pairs of 50 seeds that differ in few bits" % (len(SEEDED), 5 if tier == "quick" else 12))

    def shards(self, tier):
        return [[i] for i in range(len(SEEDED))] + [["free"]] + (
            [[i, "two"] for i in range(MAIN)] if tier != "quick" else []) + [["apart"]]

    # seeds that differ in few bits, neighbours and powers of ten
    APART = sorted({0, 1, 2, 3, 7, 2**32 - 1, 2**32 - 2} | {2**k for k in range(2, 32)} | {2**k + 1 for k in (8, 16, 24, 31)}
                   | {10**k for k in range(1, 10)} | {2**k - 1 for k in (8, 16, 24, 31)})

    SD = [0, 1, 5, 2**31, 2**32 - 1, 2, 3, 4, 42, 100, 999, 123456]

    def cases(self, shard, tier):
        if shard[0] == "free":
            for i in range(len(SEEDED) + len(NOSEED)):
                for s in range(6):
                    yield ["free", i, s]
            return
        if shard[0] == "apart":
            for i in range(len(SEEDED)):
                yield ["apart", i]
            return
        i = shard[0]
        if len(shard) == 2:
            for a in INTERFERE[1:]:
                for b in INTERFERE[1:]:
                    yield [i, 0, [a, b], None]
            return
        for s in self.SD[:5 if tier == "quick" else 12]:
            for h in INTERFERE:
                for hs in ((None, 0, 7) if isinstance(h, int) else (None,)):
                    yield [i, s, [h], hs]

    def interfere(self, h, hs):
        if h is None:
            return
        if h == "bits":
            ff.generate_random_bitstring(5, 2)
        elif h == "jw":
            ff.jordan_wigner_alphas(3)
        elif h == "global":
            np.random.rand(7)
            random.random()
        else:
            SEEDED[h][1](hs)

    _base = {}

    def run(self, case, rec):
        rec.state(case)
        if case[0] == "free":  # without a seed, draws are fresh and follow the global generator
            _, i, s = case
            name, f = (SEEDED + NOSEED)[i]
            runs = []
            for _ in range(2):
                np.random.seed(s)
                random.seed(s)
                runs.append([flat(f(None)) for _ in range(6)])
                rec.trace(6)
                rec.trans(6)
            rec.check(distinct(runs[0]) >= 5, "%s: unseeded draws repeat", name)
            rec.check(all(same(a, b) for a, b in zip(*runs)), "%s: unseeded draws ignore the global generator", name)
            rec.outcome([np.round(a, 6).tolist() for a in runs[0][0]])
            return
        if case[0] == "apart":
            name, f = SEEDED[case[1]]
            seen = {}
            for s in self.APART:
                rec.trace()
                rec.trans()
                key = repr([np.asarray(a).tolist() for a in flat(f(s))])
                rec.check(key not in seen, "%s: seeds %s and %s give the same draw", name, seen.get(key), s)
                seen[key] = s
            return
        i, s, hist, hs = case
        name, f = SEEDED[i]
        if (i, s) not in self._base:
            np.random.seed(777)
            random.seed(777)
            self._base[i, s] = flat(f(s))
            others = [k for k in self._base if k[0] == i and k[1] != s]
            if others:
                rec.check(not any(same(self._base[k], self._base[i, s]) for k in others),
                          "%s: two seeds give the same draw", name)
        np.random.seed(4242)
        random.seed(4242)
        for h in hist:
            self.interfere(h, hs)
            rec.trans()
        got = flat(f(s))
        rec.trace()
        rec.check(same(got, self._base[i, s]), "%s: seed %s gives a different draw after %s", name, s, hist)
        again = flat(f(s))
        rec.check(same(again, got), "%s: seed %s gives a different draw the second time", name, s)
        rec.outcome((i, s, [np.round(a, 6).tolist() for a in got]))


# ------------------------------------------------------------------- paths
class Paths(Space):
    rule = ("state = (pair of vectors, parameter); transition = one step along the path; trace = one "
            "point compared with the great circle (or the normalised chord)")
    assumptions = ["antipodal pairs are excluded from the straight path's midpoint, where it is undefined"]

    T = [0, 1, 0.5, 0.25, 0.75, 0.1, 0.9, 1 / 3, 0.999, 1e-6]
    V = [1, 0, -1, 1j, 2, 0.5 - 0.5j, 1e-3]

    def bounds(self, tier):
        return "all pairs of vectors over %d values in dimension 2 and 3 (4 values), dense pairs to 257" % 7

    def vecs(self, n, k):
        return [v for v in itertools.product(range(k), repeat=n) if any(self.V[i] != 0 for i in v)]

    def shards(self, tier):
        return [["g2", r] for r in range(8)] + [["g3", r] for r in range(8)] + [["dense", 0], ["near", 0]]

    def cases(self, shard, tier):
        kind, r = shard
        if kind == "dense":
            for n in list(range(1, 11)) + [12, 16, 17, 33, 64, 100, 128, 257]:
                for s in range((12 if n < 64 else 3) if tier == "quick" else 100 if n < 64 else 12):
                    for form in range(8):
                        yield ["dense", n, s, form]
            return
        if kind == "near":
            for n in (2, 3, 5):
                for e in (1e-1, 1e-3, 1e-5, 1e-7, 1e-9, 0):
                    for ph in (1, -1, 1j, 0.6 + 0.8j):
                        for s in range(3):
                            yield ["near", n, e, [complex(ph).real, complex(ph).imag], s]
            return
        vs = self.vecs(2, 7) if kind == "g2" else self.vecs(3, 4)
        for i, (a, b) in enumerate(itertools.product(range(len(vs)), repeat=2)):
            if i % 8 == r:
                yield [kind, list(vs[a]), list(vs[b])]

    def run(self, case, rec):
        kind = case[0]
        form = 0
        if kind == "dense":
            n, s, form = case[1:]
            w = ref.dense(s, (n, 1), "real" if s % 3 == 0 else "complex")
            v = ref.dense(s + 41, (n, 1), "real" if s % 6 == 0 else "complex")
            if s % 4 == 1:
                w, v = w * 1e-5, v * 1e4
            elif s % 4 == 2:
                w = ref.dense(s, (n, 1), "int")
                w[0] = 3
        elif kind == "near":
            n, e, ph, s = case[1:]
            w = ref.dense(s, (n, 1))
            v = complex(*ph) * w + e * ref.dense(s + 9, (n, 1))
        else:
            w, v = (np.array([self.V[i] for i in x]).reshape(-1, 1) for x in case[1:])
            if not w.imag.any() and not v.imag.any():
                w, v = w.real, v.real
                if (w == np.round(w)).all():
                    w = w.astype(int)
        if form == 7:  # narrow types
            T = (np.int8, np.uint8, bool, np.float32, np.complex64)[s % 5]
            k = 1 if T is bool else 100
            w, v = (((np.arange(n) * c + d) % 3 * k / 2).astype(T).reshape(-1, 1) for c, d in ((1 + s, 1), (2, 2 + s)))
            if T is np.complex64:
                v = (v * np.complex64(1 + 2j)).astype(T)
            if not w.any() or not v.any():
                return
        args = [(w, v), (w.ravel(), v.ravel()), (w.ravel().tolist(), v), (w, v.ravel()), (w.tolist(), tuple(v.ravel())),
                (np.repeat(w.ravel(), 2)[::2], np.column_stack([v, w, w])[:, :1]),
                (ref.layouts(w)["readonly"], np.flip(np.flip(v, 0).copy(), 0)), (w, v)][form]
        w, v = (x.astype(complex if np.iscomplexobj(x) else float) for x in (w, v))
        wh, vh = w / np.linalg.norm(w), v / np.linalg.norm(v)
        sgl = 1e-5 if form == 7 else 1e-8  # single precision arguments
        uni = ff.build_unitary_path(*args)
        lin = ff.build_linear_path(*args)
        co = max(-1.0, min(1.0, (wh.conj().T @ vh).item().real))
        # angle of the real sphere, stable near 0 and pi
        th = 2 * math.atan2(np.linalg.norm(vh - wh), np.linalg.norm(vh + wh))
        pts = {}
        for t in self.T:
            rec.state((case, t))
            rec.trans()
            rec.trace(2)
            x = np.asarray(uni(t))
            rec.check(x.shape == wh.shape, "path point has shape %s", x.shape)
            rec.check(abs(np.linalg.norm(x) - 1) < sgl, "path leaves the unit sphere at t=%s", t)
            pts[t] = x
            if th < 3.14159 and th > 1e-6:
                want = (math.sin((1 - t) * th) * wh + math.sin(t * th) * vh) / math.sin(th)
                tol = 1e-6 if abs(th - math.pi) > 1e-2 else 1e-3
                rec.check(ref.dist(x, want) < tol, "not the great circle at t=%s: off by %g", t,
                          ref.dist(x, want))
            den = np.linalg.norm(t * vh + (1 - t) * wh)
            if den > 1e-6:
                y = np.asarray(lin(t))
                rec.check(ref.dist(y, (t * vh + (1 - t) * wh) / den) < sgl, "straight path wrong at t=%s", t)
        rec.check(ref.dist(pts[0], wh) < sgl, "path does not start at the first vector")
        rec.check(ref.dist(pts[1], vh) < 1e-6, "path does not end at the second vector")
        for t, u in itertools.combinations(self.T, 2):
            ch = np.linalg.norm(pts[t] - pts[u])
            rec.check(abs(ch - 2 * math.sin(th * abs(t - u) / 2)) < 1e-6, "speed is not constant")
        rec.outcome(round(th, 6))


class OrthoBasis(Space):
    rule = ("state = input vector; transition = one column of the returned basis; trace = one basis "
            "checked for orthonormality")

    def bounds(self, tier):
        return "all vectors over 7 values in dimensions 1..%d; dense and sparse vectors to 128" % (4 if tier == "quick" else 5)

    def shards(self, tier):
        return [["g", n, f] for n in range(4 if tier == "quick" else 5, 0, -1) for f in range(7)] + [["dense", 0, 0]]

    def cases(self, shard, tier):
        kind, n, f = shard
        if kind == "dense":
            for n in list(range(2, 18)) + [20, 32, 33, 64, 65, 128]:
                for s in range(20 if n < 20 else 6):
                    for form in range(8):
                        yield ["dense", n, s, form]
        else:
            for v in itertools.product(range(7), repeat=n - 1):
                yield ["g", [f] + list(v)]

    def run(self, case, rec):
        form = 1
        if case[0] == "dense":
            n, s, form = case[1:]
            v = ref.dense(s, (n, 1), ["real", "complex", "int"][s % 3])
            if not v.any():
                return
            v = v * 10.0 ** [0, -5, 6][s % 3] if s % 3 < 2 else v
            if s % 7 == 6:  # small, but not zero
                v = v / np.linalg.norm(v) * (3e-8, 1e-7, 1e-6)[s % 3]
            if s % 5 == 4:  # sparse: two non-zero entries, the first one elsewhere than in front
                v = v * np.isin(np.arange(n), [n - 1, (7 * s + n // 2) % n]).reshape(-1, 1)
                if not v.any():
                    return
        else:
            v = np.array([Paths.V[i] for i in case[1]]).reshape(-1, 1)
            if not v.imag.any():
                v = v.real
        n = len(v)
        if np.iscomplexobj(v) and case[0] == "dense" and s % 4 == 1:
            v = v.real + 1j * v.imag * 10.0 ** -(3 * (form % 4) + 3)  # nearly real
        if form == 7:
            T = (np.int8, np.uint8, bool, np.float32, np.complex64)[s % 5]
            v = ((np.arange(n) * (s % 4) + s) % 3 * (1 if T is bool else 100) / 2).astype(T).reshape(-1, 1)
        arg = [v.copy(), v.ravel().copy(), v.ravel().tolist(), tuple(v.ravel()), v.tolist(), np.repeat(v.ravel(), 2)[::2],
               ref.layouts(v)["readonly"], v][form]
        v = v.astype(complex if np.iscomplexobj(v) else float)
        Q = np.asarray(ff.get_orthogonal_vectors(arg))
        rec.check(ref.dist(np.ravel(arg), v.ravel()) == 0, "argument modified: %s", np.ravel(arg))
        rec.state(case)
        rec.trace()
        rec.trans(n)
        if n < 2:
            rec.check(Q.size == 0, "a basis for a one-dimensional input")
            return
        rec.check(Q.shape == (n, n), "shape %s", Q.shape)
        tol = 1e-4 if form == 7 else 1e-9  # single precision arguments
        rec.check(ref.dist(Q.conj().T @ Q, np.eye(n)) < tol, "columns not orthonormal")
        if v.any():
            rec.check(ref.dist(Q[:, :1], v / np.linalg.norm(v)) < tol,
                      "first column is not the normalised input")
        elif not v.any():
            rec.check(ref.dist(Q, np.eye(n)) < 1e-12, "zero vector: not the standard basis")
        rec.outcome(tuple(np.round(np.diag(Q), 6)))


class Rejections(Space):
    rule = ("state = (function, argument); transition = one argument replaced by an invalid one; trace = "
            "one call that must be refused with the documented error, leaving the global generator alone")

    BAD_TYPE = ["3", 2.0, 1.5, None, [2], 2 + 0j, np.float64(2), (1,), b"1", {}]
    BAD_VALUE = [0, -1, -5, -(10**6)]
    SEED = [None, 5, 0]
    FUNCS = ["pauli", "qubit", "qubit_pure", "chp", "randH", "rotPDF", "W0", "WN", "CN"]

    def bounds(self, tier):
        return "9 functions x 10 wrong types x 4 wrong values, without a seed and with two; all N in -6..sites+6 and wrong types for N"

    def fn(self, k):
        return {"pauli": ff.generate_pauli_group, "qubit": frs.random_qubit_state,
                "qubit_pure": ff.random_qubit_pure_state, "chp": ff.random_CHP_state,
                "randH": ff.random_FF_state_randH, "rotPDF": ff.random_FF_state_rotPDF,
                "W0": ff.random_FF_pure_state_W0, "WN": ff.random_FF_pure_state_WN,
                "CN": ff.random_FF_pure_state_CN}[k]

    def shards(self, tier):
        return [[f] for f in self.FUNCS] + [["N"]]

    def cases(self, shard, tier):
        if shard[0] == "N":
            for n in (1, 2, 3):
                for N in range(-6, n + 7):
                    if not 0 <= N <= n:
                        for sd in self.SEED:
                            yield ["N", n, N, sd]
                for i in range(4):
                    for sd in self.SEED:
                        yield ["Nt", n, i, sd]
            return
        for sd in self.SEED if shard[0] not in ("pauli", "chp") else [None]:
            for i in range(len(self.BAD_TYPE)):
                yield [shard[0], "type", i, sd]
            for i in range(len(self.BAD_VALUE)):
                yield [shard[0], "value", i, sd]

    def run(self, case, rec):
        rec.state(case)
        rec.trans()
        rec.trace()
        if case[0] in ("N", "Nt"):
            N = case[2] if case[0] == "N" else [1.0, "1", 0.5, [1]][case[2]]
            f, args, exc = ff.random_FF_pure_state_WN, (case[1], N), ValueError
        else:
            f = self.fn(case[0])
            if case[1] == "type":
                args, exc = (self.BAD_TYPE[case[2]],), TypeError
            else:
                args, exc = (self.BAD_VALUE[case[2]],), ValueError
        kw = {} if case[3] is None else {"seed": case[3]}
        np.random.seed(99)
        np.random.standard_normal(3)
        before = repr(np.random.get_state(legacy=False)), np.random.get_state()[1].tobytes(), random.getstate()
        try:
            r = f(*args, **kw)
        except exc:
            rec.outcome(exc.__name__)
            rec.check((repr(np.random.get_state(legacy=False)), np.random.get_state()[1].tobytes(),
                       random.getstate()) == before,
                      "the refused call %s%r drew or seeded random numbers", case[0], args)
            return
        except Exception as e:
            rec.fail("%s%r raised %s, not %s" % (case[0], args, type(e).__name__, exc.__name__))
        rec.fail("%s%r accepted: %s" % (case[0], args, type(r)))
