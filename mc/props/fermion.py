"""Jordan-Wigner operators, quadratic forms, diagonalisation, Gaussian states."""

import itertools
import math

import numpy as np

import ff
from mc import ref
from mc.engine import Space

VALS = ref.VALS


# --------------------------------------------------------------------------
class JordanWigner(Space):
    rule = ("state = (sites, occupation basis state); transition = one creation/"
            "annihilation/Majorana operator applied to it, predicted by the Fock model; "
            "trace = one operator list returned by the package compared entry by entry")
    assumptions = ["site 0 is the most significant tensor factor, |0> is the vacuum"]

    def bounds(self, tier):
        return "every basis state and operator for 1..%d sites" % (10 if tier == "quick" else 11)

    def shards(self, tier):
        return [["low", n] for n in range(1, 11 if tier == "quick" else 12)][::-1] + [
            ["repeat", n] for n in range(1, 5)]

    def cases(self, shard, tier):
        kind, n = shard
        if kind == "repeat":
            for m in range(1, 6):
                yield ["repeat", n, m]
            return
        for fam in ("lower", "alpha", "majorana"):
            yield [fam, n]
        if n <= 6:
            yield ["car", n]

    def run(self, case, rec):
        kind, n = case[0], case[1]
        if kind == "repeat":  # n, then m, then n again: results depend on n alone
            m = case[2]
            for k in (n, m, n):
                for f, g in ((ff.jordan_wigner_lowering, ref.lowering),
                             (ff.jordan_wigner_alphas, ref.alphas),
                             (ff.jordan_wigner_majoranas, ref.majoranas)):
                    got = f(k)
                    want = g(k)
                    rec.trace()
                    rec.trans()
                    rec.check(len(got) == len(want) and all(
                        ref.dist(a, b) < 1e-12 for a, b in zip(got, want)),
                        "operators for %d sites differ on a repeated call" % k)
                    for x in got:
                        x *= 7  # later calls must not see this
            rec.state(case)
            return
        if kind == "car":
            ops = ff.jordan_wigner_alphas(n)
            gam = ff.jordan_wigner_majoranas(n)
            S = ref.swapmat(n)
            eye = np.eye(2**n)
            for i in range(2 * n):
                for j in range(2 * n):
                    rec.trans()
                    ac = ops[i] @ ops[j] + ops[j] @ ops[i]
                    rec.check(ref.dist(ac, S[i, j] * eye) < 1e-9,
                              "{alpha_%d,alpha_%d} wrong for n=%d", i, j, n)
                    ac = gam[i] @ gam[j] + gam[j] @ gam[i]
                    rec.check(ref.dist(ac, (i == j) * eye) < 1e-9,
                              "{gamma_%d,gamma_%d} wrong for n=%d", i, j, n)
            rec.trace(2)
            return
        got = {"lower": ff.jordan_wigner_lowering, "alpha": ff.jordan_wigner_alphas,
               "majorana": ff.jordan_wigner_majoranas}[kind](n)
        rec.trace()
        want_n = n if kind == "lower" else 2 * n
        rec.check(len(got) == want_n, "%s: %d operators for n=%d", kind, len(got), n)
        for b in range(2**n):
            rec.state(("fock", n, b))
        for k in range(want_n):
            m = np.asarray(got[k])
            rec.check(m.shape == (2**n, 2**n), "shape %s", m.shape)
            want = np.zeros((2**n, 2**n), dtype=complex)
            j = k % n
            for b in range(2**n):
                rec.trans()
                lo, up = ref.act_lower(n, j, b), ref.act_raise(n, j, b)
                if kind == "lower" or (kind == "alpha" and k >= n):
                    terms = [(lo, 1)]
                elif kind == "alpha":
                    terms = [(up, 1)]
                elif k < n:
                    terms = [(lo, 1 / math.sqrt(2)), (up, 1 / math.sqrt(2))]
                else:
                    terms = [(lo, -1j / math.sqrt(2)), (up, 1j / math.sqrt(2))]
                for r, c in terms:
                    if r:
                        want[r[1], b] += c * r[0]
            rec.check(ref.dist(m, want) < 1e-12, "%s operator %d of %d sites is wrong",
                      kind, k, n)
            rec.outcome((kind, n, k))


# --------------------------------------------------------------------------
class AlgebraS(Space):
    rule = ("state = linear map M applied to a Clifford/CAR operator set; transition = one "
            "entry of M changed from the identity (or one product with a dense map); trace = "
            "one anticommutator table compared with M S M^T")

    def bounds(self, tier):
        return "1..3 sites, every entry (i,j) x 11 coefficient values; dense maps to %d sites" % (6 if tier == "quick" else 7)

    def shards(self, tier):
        return [[n, f] for n in (3, 2, 1) for f in ("alpha", "majorana")] + [["dense", 0]]

    def cases(self, shard, tier):
        n, f = shard
        if n == "dense":
            for n in range(1, 7 if tier == "quick" else 8):
                for f in ("alpha", "majorana"):
                    for s in range(4):
                        yield ["dense", f, n, s]
            return
        yield ["id", f, n]
        for i in range(2 * n):
            for j in range(2 * n):
                for v in range(len(VALS)):
                    yield ["unit", f, n, i, j, v]

    def run(self, case, rec):
        kind, f, n = case[:3]
        ops = ref.alphas(n) if f == "alpha" else ref.majoranas(n)
        S = ref.swapmat(n) if f == "alpha" else np.eye(2 * n)
        M = np.eye(2 * n, dtype=complex)
        if kind == "unit":
            M[case[3], case[4]] += VALS[case[5]]
        elif kind == "dense":
            M = ref.dense(case[3], (2 * n, 2 * n))
            if case[3] == 1:
                M = ref.symplectic(3, n)
            if case[3] == 2:
                M = M.real
        new = [sum(M[k, l] * ops[l] for l in range(2 * n)) for k in range(2 * n)]
        if kind == "id" and f == "alpha":
            new = [x.astype(int) for x in new]
        if kind == "dense" and case[3] == 3:  # operators of different types
            M = np.diag(1.0 + np.arange(2 * n) % 3) + 0j
            new = [(a * x).astype(t) for a, x, t in zip(M.diagonal(), ops, itertools.cycle(
                (complex,) if f != "alpha" else (int, complex, float, np.float32)))]
            if f != "alpha":  # the real ones as reals
                new = [x if x.imag.any() else x.real for x in new]
            if n % 2:
                new, M = new[::-1], M[::-1]
        got = ff.compute_algebra_S(new)
        rec.trace()
        rec.state(tuple(np.round(M, 12).ravel()))
        rec.trans()
        want = M @ S @ M.T
        rec.check(ref.dist(got, want) < 3e-8, "anticommutator table wrong by %g",
                  ref.dist(got, want))
        rec.check(ref.dist(ff.compute_algebra_S(new, verbose=True), got) == 0,
                  "verbose changes the table")


# --------------------------------------------------------------------------
class PauliGroup(Space):
    rule = ("state = Pauli word; transition = base-4 successor of the word; trace = one "
            "element of the returned list compared with the word's own action")

    def bounds(self, tier):
        return "all words on 1..%d qubits" % (5 if tier == "quick" else 6)

    def shards(self, tier):
        return [[n, v] for n in range(6 if tier != "quick" else 5, 0, -1) for v in (0, 1)
                if n < 6 or not v] + [["mats", 0]]

    def cases(self, shard, tier):
        yield shard

    def run(self, case, rec):
        n, verbose = case
        if n == "mats":
            got = ff.pauli_matrices()
            rec.trace(3)
            rec.trans(3)
            rec.check(len(got) == 3, "three Pauli matrices")
            for g, c in zip(got, "XYZ"):
                rec.state(c)
                rec.check(ref.dist(g, ref.PAULI[c]) == 0, "sigma_%s", c)
            return
        import io
        import sys

        buf = io.StringIO()
        keep = sys.stdout
        sys.stdout = buf
        try:
            got = ff.generate_pauli_group(n, verbose=bool(verbose))
        finally:
            sys.stdout = keep
        words = ref.pauli_words(n)
        rec.check(len(got) == 4**n, "%d elements for n=%d", len(got), n)
        for w, m in zip(words, got):
            rec.state(w)
            rec.trans()
            rec.trace()
            rec.check(ref.dist(m, ref.pauli_string(w)) < 1e-14, "element %s is wrong", w)
            rec.outcome(w)
        if verbose:
            lines = [x.strip() for x in buf.getvalue().splitlines() if x.strip()]
            rec.check(lines == words, "printed names do not list the elements in order")


# --------------------------------------------------------------------------
def opset(kind, n):
    """A list of 2n operators."""
    k = int(2 * n)
    if kind == "jw":
        return ref.alphas(n)
    if kind == "maj":
        return ref.majoranas(n)
    if kind == "tag":  # linearly independent integer matrix units
        return [np.eye(k, dtype=int)[[i]].T @ np.ones((1, 3), dtype=int) * np.array([1, 2, 3])
                + (i + 1) * 0 for i in range(k)]
    if kind == "dense":
        return [ref.dense(i, (3, 3)) for i in range(k)]
    if kind == "int":
        return [ref.dense(i, (3, 3), "int") for i in range(k)]
    if kind == "jwint":
        return [x.astype(int) for x in ref.alphas(n)]
    raise KeyError(kind)


class RotateOperators(Space):
    rule = ("state = (operator set, coefficient matrix); transition = one entry added to the "
            "coefficient matrix, or one generator composed in the group of signed permutations; "
            "trace = one rotation compared with the defining sum")
    assumptions = ["terms with |coefficient| < 1e-9 may be dropped"]

    def bounds(self, tier):
        return "2..6 operators (dense: 1 to 10, 12, 14, 16, 17, 24, 33 and 40), all entries x 11 values x both modes x both argument orders; " \
               "the 384-element signed permutation group on 4 operators"

    def shards(self, tier):
        return [["unit", k, n] for n in (3, 2, 1) for k in ("jw", "maj", "tag", "int")] + [
            ["dense", k, 0] for k in ("jw", "maj", "tag", "dense", "int")] + [["group", "tag", 2]]

    def cases(self, shard, tier):
        what, k, n = shard
        if what == "unit":
            for i in range(2 * n):
                for j in range(2 * n):
                    for v in range(len(VALS)):
                        for mode in range(4):
                            yield ["unit", k, n, i, j, v, mode]
        elif what == "dense":
            for n in (0.5, 1, 1.5, 2, 2.5, 3, 3.5, 4, 4.5, 5, 6, 7, 8, 8.5, 12, 16.5, 20):
                if n != int(n) and k in ("jw", "maj"):
                    continue
                if n > 4 and k in ("jw", "maj") and (n > 6 or tier == "quick"):
                    continue
                for kind in ("complex", "real", "int"):
                    for lay in ("C", "F", "strided", "readonly"):
                        for mode in range(4):
                            if n < 5 or lay == "F":
                                yield ["dense", k, n, kind, lay, mode]
        else:
            yield ["group"]

    def run(self, case, rec):
        if case[0] == "group":
            return self.group(rec)
        k, n, mode = case[1], case[2], case[-1]
        ops = opset(k, n)
        m = len(ops)
        if case[0] == "unit":
            C = np.zeros((m, m), dtype=complex)
            C[case[3], case[4]] = VALS[case[5]]
            base = np.zeros_like(C)
            if (case[3] + case[4]) % 2:
                base = np.eye(2 * n)
            C = C + base
            if not C.imag.any() and case[3] == 0:
                C = C.real
        else:
            C = ref.layouts(ref.dense(3, (m, m), case[3]))[case[4]]
        rec.state((k, n, C.tobytes(), mode))
        rec.trans()
        left, swap = bool(mode & 1), bool(mode & 2)
        keep = C.copy()
        got = ff.rotate_operators(ops, C, Left=left) if swap else ff.rotate_operators(
            C, ops, Left=left)
        rec.trace()
        M = keep.conj().T if left else keep
        rec.check(len(got) == m, "%d operators returned", len(got))
        scale = 1 + max(np.abs(M).max(), 1)
        for r in range(m):
            want = sum(M[r, c] * ops[c].astype(complex) for c in range(m))
            d = ref.dist(got[r], want)
            rec.check(d <= 1e-9 * 8 * (1 + np.abs(ops[0]).max())
                      + 1e-13 * scale, "rotated operator %d off by %g", r, d)
        rec.check(np.array_equal(C, keep), "the coefficient matrix was modified")
        rec.outcome(np.round(np.asarray(got[0]), 9).tobytes())

    def group(self, rec):
        n = 2
        ops = opset("tag", n)
        gens = []
        for i in range(3):
            p = np.eye(4)
            p[[i, i + 1]] = p[[i + 1, i]]
            gens.append(p)
        g = np.eye(4)
        g[0, 0] = -1
        gens.append(g)
        seen = {np.eye(4).tobytes(): np.eye(4)}
        front = [np.eye(4)]
        while front:
            nxt = []
            for C in front:
                mid = ff.rotate_operators(C, ops)
                for G in gens:
                    two = ff.rotate_operators(G, mid)
                    GC = G @ C + 0.0
                    one = ff.rotate_operators(GC, ops)
                    rec.trans()
                    rec.trace(2)
                    rec.check(all(ref.dist(a, b) < 1e-12 for a, b in zip(one, two)),
                              "rotating twice differs from rotating by the product")
                    key = GC.tobytes()
                    rec.state(key)
                    if key not in seen:
                        seen[key] = GC
                        nxt.append(GC)
            front = nxt
        rec.check(len(seen) == 384, "harness: %d group elements", len(seen))


class BuildOp(Space):
    rule = ("state = (operator set, quadratic coefficient matrix); transition = one coefficient "
            "added to a base matrix; trace = one many-body operator compared with the defining "
            "sum over pairs")
    assumptions = ["terms with |coefficient| < 1e-10 may be dropped"]

    def bounds(self, tier):
        return "1..3 sites, all entries x 11 values x both forms x 3 bases; dense to %d sites" % (7 if tier == "quick" else 8)

    def shards(self, tier):
        return [["unit", k, n, d] for n in (3, 2, 1) for k in ("jw", "maj", "int", "dense")
                for d in (0, 1)] + [["dense", k, 0, d] for k in ("jw", "maj", "jwint")
                                    for d in (0, 1)]

    def cases(self, shard, tier):
        what, k, n, d = shard
        if what == "unit":
            for base in range(3):
                for i in range(2 * n):
                    for j in range(2 * n):
                        for v in range(len(VALS)):
                            yield ["unit", k, n, d, base, i, j, v]
        else:
            for n in range(1, 8 if tier == "quick" else 9):
                for kind in ("complex", "real", "int"):
                    for lay in ("C", "F", "strided", "readonly"):
                        if n < 4 or lay == "C":
                            yield ["dense", k, n, d, kind, lay]

    def run(self, case, rec):
        what, k, n, direct = case[:4]
        ops = opset(k, n)
        if what == "unit":
            base, i, j, v = case[4:]
            R = [np.zeros((2 * n, 2 * n)), ref.dense(1, (2 * n, 2 * n), "int"),
                 ref.coeff_H(ref.herm(2, n), ref.anti(2, n))][base].astype(complex)
            R[i, j] += VALS[v]
            if not R.imag.any() and (i + j) % 2:
                R = R.real
        else:
            R = ref.layouts(ref.dense(2, (2 * n, 2 * n), case[4]))[case[5]]
        rec.state((k, n, direct, R.tobytes()))
        rec.trans()
        keep = R.copy()
        if what == "dense" or case[-1] % 2:
            got = ff.build_op(n, R, ops, direct=bool(direct))
        else:
            got = ff.build_op(n, R, ops, verbose=True, direct=bool(direct))
        if not direct and what == "dense":
            rec.check(ref.dist(ff.build_op(n, R, ops), got) == 0, "default is not the dagger form")
        rec.trace()
        want = ref.quad(keep, ops, dag=not direct)
        d = ref.dist(got, want)
        tol = 4e-10 * 4 * (1 + max(np.abs(o).max() for o in ops)) ** 2 + 1e-12 * np.abs(want).max()
        rec.check(d <= tol, "many-body operator off by %g", d)
        rec.check(np.array_equal(R, keep), "the coefficient matrix was modified")
        rec.outcome(np.round(np.asarray(got), 9).tobytes())


# --------------------------------------------------------------------------
class CoefficientBuilders(Space):
    rule = ("state = argument matrices; transition = one entry set; trace = one built "
            "coefficient matrix compared block by block with its definition")

    def bounds(self, tier):
        return "1..4 sites, all entries x values; dense to 64; kitaev lattice to 7 sites, 12, 17, 33 and 64; constant matrices to 100"

    def shards(self, tier):
        return [["HV", n] for n in (4, 3, 2, 1)] + [["kitaev", n] for n in (1, 2, 3, 4, 5, 6, 7, 12, 17, 33, 64)] + [
            ["const", 0], ["large", 0]]

    def cases(self, shard, tier):
        what, n = shard
        if what == "HV":
            for f in ("H", "V"):
                for which in ("A", "B", "none"):
                    for i in range(n):
                        for j in range(n):
                            for v in range(len(VALS)):
                                yield [f, n, which, i, j, v]
                for kind in ("int", "real", "complex"):
                    for lay in ("C", "F", "strided", "readonly"):
                        yield [f, n, "dense", kind, lay]
        elif what == "kitaev":
            vals = [0, 1, -2, 0.5, 3e-9]
            for mu in vals:
                for t in vals:
                    for d in vals:
                        yield ["kitaev", n, mu, t, d]
        elif what == "large":
            for n in (5, 6, 7, 8, 12, 16, 17, 24, 33, 64):
                for f in ("H", "V"):
                    for kind in ("int", "real", "complex"):
                        for lay in ("C", "F", "strided", "readonly"):
                            yield [f, n, "dense", kind, lay]
        else:
            for n in [*range(1, 18), 20, 24, 32, 33, 64, 100]:
                yield ["omega", n]
                yield ["xxxp", n]
                yield ["K", n]

    def run(self, case, rec):
        what, n = case[:2]
        rec.state(case)
        rec.trans()
        rec.trace()
        if what in "HV":
            f = ff.build_H if what == "H" else ff.build_V
            g = ref.coeff_H if what == "H" else ref.coeff_V
            z = np.zeros((n, n), dtype=complex)
            A, B = z.copy(), z.copy()
            if case[2] == "dense":
                A = ref.layouts(ref.dense(1, (n, n), case[3]))[case[4]]
                B = ref.layouts(ref.dense(2, (n, n), case[3]))[case[4]]
            elif case[2] in ("A", "none"):
                A = ref.dense(4, (n, n))
                A[case[3], case[4]] = VALS[case[5]]
                if case[2] == "A":
                    B = ref.dense(7, (n, n), "real")
            else:
                A = ref.dense(4, (n, n), "real")
                B[case[3], case[4]] = VALS[case[5]]
            got = f(n, A) if case[2] == "none" else f(n, A, B)
            want = g(A, z if case[2] == "none" else B)
            rec.check(ref.dist(got, want) == 0, "blocks wrong by %g", ref.dist(got, want))
            got[0, 0] += 5
            again = f(n, A) if case[2] == "none" else f(n, A, B)
            rec.check(ref.dist(again, want) == 0, "the result shares memory with an argument")
        elif what == "kitaev":
            mu, t, d = case[2:]
            A, B = np.zeros((n, n)), np.zeros((n, n))
            for i in range(n):
                A[i, i] = -mu
                if i + 1 < n:
                    A[i, i + 1] = A[i + 1, i] = -t
                    B[i, i + 1], B[i + 1, i] = d, -d
            got = ff.kitaev_chain(n, mu, t, d)
            rec.check(ref.dist(got, ref.coeff_H(A, B)) < 1e-15, "Kitaev chain wrong")
        elif what == "omega":
            om = ff.build_Omega(n)
            rec.check(ref.dist(om, ref.omega(n)) < 1e-14, "Omega wrong")
            rec.check(ref.dist(om @ om.conj().T, np.eye(2 * n)) < 1e-12, "Omega not unitary")
            if n <= 5:
                a, m = ff.jordan_wigner_alphas(n), ff.jordan_wigner_majoranas(n)
                for k in range(2 * n):
                    rec.check(ref.dist(sum(om[k, l] * a[l] for l in range(2 * n)), m[k]) < 1e-12,
                              "Omega does not map ladder operators to Majoranas")
        elif what == "xxxp":
            P = ff.build_reordering_xx_to_xp(n)
            xx = np.arange(2 * n)
            xp = np.array([x for i in range(n) for x in (i, n + i)])
            rec.check(np.array_equal(xx @ P, xp) and np.array_equal(P @ xp, xx),
                      "reordering is not the xx <-> xp permutation")
        elif what == "K":
            # K carries paired 2x2 skew blocks to the particle-hole diagonal form
            K = ff.build_K(n)
            rec.check(ref.dist(K @ K.conj().T, np.eye(2 * n)) < 1e-12, "K not unitary")
            P = np.zeros((2 * n, 2 * n))
            w = np.array([[1, -1j], [1j, -1]]) / math.sqrt(2)
            W = np.zeros((2 * n, 2 * n), dtype=complex)
            for i in range(n):
                P[i, 2 * i] = P[n + i, 2 * i + 1] = 1
                W[2 * i:2 * i + 2, 2 * i:2 * i + 2] = w
            ph = np.diag([1] * n + [-1j] * n)
            rec.check(ref.dist(K, ph @ P @ W @ ref.omega(n)) < 1e-12, "K wrong")


class PermutationMatrix(Space):
    rule = ("state = sequence over {-1..n}; transition = adjacent transposition (left "
            "multiplication in the Cayley graph); trace = one conversion compared")

    def bounds(self, tier):
        return "all permutations to length %d, all sequences over {-1..n} to length %d; cycles, reversals and single " \
               "defects to length 20" % ((6, 4) if tier == "quick" else (8, 6))

    def shards(self, tier):
        a, b = (6, 4) if tier == "quick" else (8, 6)
        return [["perm", n] for n in range(a, 0, -1)] + [["any", n] for n in range(b, 0, -1)] + [["long", 0]]

    def cases(self, shard, tier):
        what, n = shard
        if what == "long":
            for n in (7, 8, 9, 10, 11, 12, 16, 20, 33, 64, 65, 128):
                for p in ([*range(1, n), 0], [*range(n)][::-1], [(3 * i + 2) % n for i in range(n)]):
                    yield [what, p]
                    for i in range(n):
                        for x in (-1, n, p[i - 1], p[i] - n, p[i] + n):
                            yield [what, p[:i] + [x] + p[i + 1:]]
            return
        src = itertools.permutations(range(n)) if what == "perm" else itertools.product(
            range(-1, n + 1), repeat=n)
        for p in src:
            yield [what, list(p)]

    def run(self, case, rec):
        what, p = case
        n = len(p)
        rec.state(tuple(p))
        rec.trace()
        if sorted(p) != list(range(n)):
            rec.trans()
            rec.check(ff.permutation_to_matrix(p) is None, "%s accepted", p)
            return
        for q in (p, tuple(p), np.array(p)):
            M = ff.permutation_to_matrix(q)
            rec.check(M is not None and M.shape == (n, n), "%s rejected", p)
            for i in range(n):
                e = np.zeros(n)
                e[i] = 1
                out = np.zeros(n)
                out[p[i]] = 1
                rec.check(np.array_equal(M @ e, out), "%s: column %d wrong", p, i)
        if what != "any":
            for k in range(n - 1):
                rec.trans()
                t = list(range(n))
                t[k], t[k + 1] = t[k + 1], t[k]
                tp = [t[x] for x in p]
                rec.check(np.array_equal(ff.permutation_to_matrix(t) @ M,
                                         ff.permutation_to_matrix(tp)), "not a homomorphism")
        rec.outcome(tuple(p))


# --------------------------------------------------------------------------
DIAG = [0, 1, -1, 0.5]
OFF = [0, 1, 1j, -1 + 1j]
PAIR = [0, 1, -1j, 2]


def bdg_cases(n, tier):
    """Coefficient pairs (A Hermitian, B antisymmetric), simplest first."""
    m = n * (n - 1) // 2
    if n == 1:
        for a in (0, 1, -1, 0.5, -3, 1e-3, 20):
            yield ["one", 1, a]
    elif n == 2:
        for d in itertools.product(range(4), repeat=2):
            for o in range(4):
                for z in range(4):
                    yield ["lat", 2, list(d), [o], [z]]
    elif n == 3:
        ds = range(3)
        os_, zs = ((0, 2), (0, 1)) if tier == "quick" else ((0, 1, 2), (0, 1, 2))
        for d in itertools.product(ds, repeat=3):
            for o in itertools.product(os_, repeat=m):
                for z in itertools.product(zs, repeat=m):
                    yield ["lat", 3, list(d), list(o), list(z)]
    elif n < 6 or n == 6 and tier != "quick":
        for d in itertools.product((0, 1, 2), repeat=n):
            yield ["lat", n, list(d), [0] * m, [0] * m]
    else:
        for k in range(3):
            for j in range(n):
                yield ["lat", n, [(i * (k + 1) // (j + 1)) % 3 for i in range(n)], [0] * m, [0] * m]
    for s in range(6):
        for sc in (1, 0.01, 30):
            yield ["dense", n, s, sc]
    for s in range(3):
        yield ["pairing", n, s]
        yield ["hopping", n, s]
        yield ["real", n, s]
        yield ["shift", n, s]
        for k in (2, 4, 6):
            yield ["weakB", n, s, k]
            yield ["weakA", n, s, k]
            yield ["near", n, s, k]
    for mu in (0, 0.5, 2, -1):
        for t in (0, 1, -0.5):
            for dl in (0, 1, t):
                yield ["kitaev", n, mu, t, dl]
                yield ["ring", n, mu, t, dl]
    yield ["ident", n]
    if n >= 2:
        yield ["twice", n]


def bdg(case):
    what, n = case[:2]
    if what == "scaled":  # the same Hamiltonian in other units
        A, B = bdg(case[3])
        return A * 10.0**case[2], B * 10.0**case[2]
    A, B = np.zeros((n, n), dtype=complex), np.zeros((n, n), dtype=complex)
    if what == "one":
        A[0, 0] = case[2]
    elif what == "lat":
        for i in range(n):
            A[i, i] = DIAG[case[2][i]]
        for k, (i, j) in enumerate(itertools.combinations(range(n), 2)):
            A[i, j], A[j, i] = OFF[case[3][k]], np.conj(OFF[case[3][k]])
            B[i, j], B[j, i] = PAIR[case[4][k]], -PAIR[case[4][k]]
    elif what == "dense":
        A, B = ref.herm(case[2], n) * case[3], ref.anti(case[2], n) * case[3]
    elif what == "pairing":
        B = ref.anti(case[2], n)
    elif what == "hopping":
        A = ref.herm(case[2], n)
    elif what == "real":
        A, B = ref.herm(case[2], n).real, ref.anti(case[2], n).real
    elif what == "shift":
        A, B = ref.herm(case[2], n) + 2 * np.eye(n), 1j * ref.anti(case[2], n)
    elif what == "weakB":  # weak pairing
        A, B = ref.herm(case[2], n), ref.anti(case[2], n) * 10.0**-case[3]
    elif what == "weakA":  # weak hopping
        A = ref.herm(case[2], n)
        A, B = np.diag(np.diag(A)) + (A - np.diag(np.diag(A))) * 10.0**-case[3], ref.anti(case[2], n)
    elif what == "near":  # nearly degenerate on-site energies
        A = np.eye(n) + ref.herm(case[2], n) * 10.0**-case[3]
        B = ref.anti(case[2], n) * 10.0**-case[3]
    elif what in ("kitaev", "ring"):
        mu, t, dl = case[2:]
        A = A - mu * np.eye(n)
        for i in range(n - (what == "kitaev")):
            j = (i + 1) % n
            if i != j and (what == "kitaev" or n > 2):
                A[i, j] -= t
                A[j, i] -= t
                B[i, j] += dl
                B[j, i] -= dl
    elif what == "ident":
        A = np.eye(n, dtype=complex)
    elif what == "twice":  # a dense block repeated: exact degeneracies
        h = n // 2
        A[:h, :h] = ref.herm(1, h)
        A[h:2 * h, h:2 * h] = ref.herm(1, h)
        B[:h, :h] = ref.anti(1, h)
        B[h:2 * h, h:2 * h] = ref.anti(1, h)
    return A, B


def modes(H):
    """The n non-negative single-mode energies."""
    w = np.linalg.eigvalsh(H)
    return np.sort(w)[H.shape[0] // 2:]


class Bdg(Space):
    sizes_quick = (3, 2, 1, 4, 5, 6)
    sizes_thorough = (3, 2, 1, 4, 5, 6, 7)
    split = 6

    def bounds(self, tier):
        return "coefficient lattices and families for sites %s" % (
            self.sizes_quick if tier == "quick" else self.sizes_thorough,)

    def shards(self, tier):
        out = []
        for n in (self.sizes_quick if tier == "quick" else self.sizes_thorough):
            k = self.split if n >= 3 else 2
            out += [[n, r, k] for r in range(k)]
        return out

    def cases(self, shard, tier):
        n, r, k = shard
        for i, c in enumerate(bdg_cases(n, tier)):
            if i % k == r:
                yield c


class Lift(Bdg):
    rule = ("state = (A, B) coefficients of a quadratic Hamiltonian; transition = action of the "
            "lifted operator on one ladder operator, predicted by the single-particle model; "
            "trace = one lifted operator compared")

    def run(self, case, rec):
        n = case[1]
        A, B = bdg(case)
        H = ff.build_H(n, A, B)
        al = ff.jordan_wigner_alphas(n)
        op = ff.build_op(n, H, al)
        rec.state((A.tobytes(), B.tobytes()))
        rec.trace()
        sc = 1 + np.abs(H).max() * 2 * n
        rec.check(ref.dist(op, op.conj().T) < 1e-9 * sc, "lifted operator not Hermitian")
        for k in range(2 * n):
            rec.trans()
            com = op @ al[k] - al[k] @ op
            want = -2 * sum(H[k, j] * al[j] for j in range(2 * n))
            rec.check(ref.dist(com, want) < 1e-8 * sc,
                      "commutator with ladder operator %d is not the single-particle one", k)
        sig = modes(ref.coeff_H(A, B))
        want = np.sort([sum(s) for s in itertools.product(*[(-x, x) for x in sig])])
        rec.check(ref.dist(np.linalg.eigvalsh(op), want) < 1e-7 * sc,
                  "many-body spectrum is not the set of signed sums of mode energies")
        rec.outcome(np.round(want, 6).tobytes())
        # time evolution of every ladder operator
        if n <= 3:
            t = 0.37
            w, v = np.linalg.eigh(op)
            U = (v * np.exp(1j * w * t)) @ v.conj().T
            Ct = ref.herm_exp(H, -2j * t)
            rot = ff.rotate_operators(Ct, al)
            for k in range(2 * n):
                rec.trans()
                rec.check(ref.dist(U @ al[k] @ U.conj().T, rot[k]) < 1e-7,
                          "evolution of ladder operator %d differs from the rotation", k)
        # the alpha_i alpha_j form carries the same operator
        V = ff.build_V(n, A, B)
        rec.trace()
        rec.check(ref.dist(ff.build_op(n, V, al, direct=True), op) < 1e-9 * sc,
                  "the two quadratic forms of one Hamiltonian differ")


class Solver(Bdg):
    def shards(self, tier):
        return super().shards(tier) + [["scaled", n, r] for n in (6, 5, 4, 3, 2, 1) for r in range(4)]

    def cases(self, shard, tier):
        if shard[0] != "scaled":
            yield from super().cases(shard, tier)
            return
        n, r = shard[1:]
        for i, c in enumerate(bdg_cases(n, "quick")):
            if i % 4 == r and (c[0] != "lat" or i % 5 == 0 or n < 3):
                for e in (3, 8, 9, 12, 16, -3, -6, -9, -10, -12, -16, -19, -40) if tier != "quick" or i % 3 == 0 \
                        else (9 + i % 5, -6 - i % 7, -13 - i % 11):
                    yield ["scaled", n, e, c]

    def bounds(self, tier):
        return super().bounds(tier) + "; families for 1..6 sites in units from 1e-40 to 1e16"


class EighSp(Solver):
    sizes_quick = (3, 2, 1, 4, 5, 6, 7, 8, 12, 16, 17, 24, 33)
    sizes_thorough = (3, 2, 1, 4, 5, 6, 7, 8, 9, 10, 11, 12, 16, 17, 20, 24, 33, 40, 50, 64)
    rule = ("state = (A, B) coefficients; transition = one diagonalisation step H -> (L, U); "
            "trace = one returned pair checked against the algebraic contract and the spectrum")

    def run(self, case, rec):
        n = case[1]
        A, B = bdg(case)
        H = ref.coeff_H(A, B)
        S = ref.swapmat(n)
        sc = np.abs(H).max() or 1
        keep = H.copy()
        rec.state(H.tobytes())
        ev = np.linalg.eigvalsh(H)
        L, U = ff.eigh_sp(H)
        rec.trace()
        rec.trans()
        self.contract(rec, n, U, S, "eigh_sp")
        rec.check(ref.dist(U.conj().T @ keep @ U, L) < 1e-8 * sc, "L is not U^+ H U")
        d = np.diag(L)
        rec.check(ref.dist(L, np.diag(d)) < 1e-7 * sc, "L is not diagonal")
        rec.check(np.abs(d.imag).max() < 1e-7 * sc, "L is not real")
        rec.check(ref.dist(d[:n], -d[n:]) < 1e-7 * sc, "L is not diag(-s, s)")
        rec.check(ref.dist(np.sort(d.real), ev) < 1e-7 * sc, "wrong spectrum")
        rec.check(np.array_equal(H, keep), "input modified")
        V = S @ H
        L, U = ff.eigv_sp(V)
        rec.trace()
        rec.trans()
        self.contract(rec, n, U, S, "eigv_sp")
        rec.check(ref.dist(U.T @ V @ U, L) < 1e-8 * sc, "L is not U^T V U")
        s = np.diag(L[n:, :n])
        want = np.zeros((2 * n, 2 * n), dtype=complex)
        want[:n, n:], want[n:, :n] = -np.diag(s), np.diag(s)
        # either sign convention of the off-diagonal pair
        rec.check(ref.dist(L, want) < 1e-7 * sc, "L is not an off-diagonal antisymmetric pair")
        rec.check(ref.dist(np.sort(np.abs(np.concatenate([s, s]))), np.sort(np.abs(ev)))
                  < 1e-7 * sc, "wrong magnitudes")
        if not H.imag.any():  # real and integer arrays
            for T in [float] + [t for t in (int, np.int8, np.float32) if np.array_equal(H.real.astype(t), H.real)]:
                R = H.real.astype(T)
                eps = (1e-5 if T is np.float32 else 1e-7) * sc
                L, U = ff.eigh_sp(R)
                Lv, Uv = ff.eigv_sp((S @ R).astype(T))
                rec.trace()
                rec.trans()
                self.contract(rec, n, U, S, "eigh_sp of %s" % np.dtype(T))
                self.contract(rec, n, Uv, S, "eigv_sp of %s" % np.dtype(T))
                rec.check(ref.dist(U.conj().T @ H @ U, L) < eps and ref.dist(L, np.diag(np.diag(L))) < eps
                          and ref.dist(np.sort(np.diag(L).real), ev) < eps, "eigh_sp of a %s array", np.dtype(T))
                rec.check(ref.dist(Uv.T @ V @ Uv, Lv) < eps and ref.dist(S @ Lv, np.diag(np.diag(S @ Lv))) < eps,
                          "eigv_sp of a %s array", np.dtype(T))
        rec.outcome(np.round(ev, 6).tobytes())

    @staticmethod
    def contract(rec, n, U, S, name):
        rec.check(U.shape == (2 * n, 2 * n), "%s: shape", name)
        rec.check(ref.dist(U.conj().T @ U, np.eye(2 * n)) < 1e-8, "%s: U not unitary", name)
        rec.check(ref.dist(U @ S @ U.T, S) < 1e-8, "%s: U not symplectic", name)
        rec.check(ref.dist(U[:n, :n], U[n:, n:].conj()) < 1e-8
                  and ref.dist(U[:n, n:], U[n:, :n].conj()) < 1e-8,
                  "%s: U does not have the canonical block form", name)


class EigmSp(Solver):
    sizes_quick, sizes_thorough = EighSp.sizes_quick, EighSp.sizes_thorough
    rule = EighSp.rule

    def run(self, case, rec):
        n = case[1]
        A, B = bdg(case)
        H = ref.coeff_H(A, B)
        om = ref.omega(n)
        G = om @ H @ om.conj().T
        G = 1j * (G.imag - G.imag.T) / 2
        keep = G.copy()
        sc = np.abs(G).max() or 1
        rec.state(G.tobytes())
        ev = np.linalg.eigvalsh(G)
        for name in ("can", "std"):
            L, O = (ff.eigm_sp_can if name == "can" else ff.eigm_sp)(G)
            rec.trace()
            rec.trans()
            rec.check(isinstance(L, np.ndarray) and not isinstance(L, np.matrix), "matrix type")
            rec.check(np.abs(np.imag(O)).max() < 1e-8, "%s: O not real", name)
            rec.check(ref.dist(O.T @ O, np.eye(2 * n)) < 1e-8, "%s: O not orthogonal", name)
            rec.check(ref.dist(O.T @ keep @ O, L) < 1e-8 * sc, "%s: L is not O^T G O", name)
            want = np.zeros_like(L)
            for k in range(n):
                i, j = (2 * k, 2 * k + 1) if name == "can" else (k, n + k)
                want[i, j], want[j, i] = L[i, j], -L[i, j]
            rec.check(ref.dist(L, want) < 1e-7 * sc, "%s: L not in canonical form", name)
            rec.check(ref.dist(np.linalg.eigvalsh((L + L.conj().T) / 2), ev) < 1e-7 * sc,
                      "%s: wrong spectrum", name)
        rec.check(np.array_equal(G, keep), "input modified")
        rec.outcome(np.round(ev, 6).tobytes())


class GaussianState(Bdg):
    rule = ("state = (A, B) coefficients at unit temperature; transition = lift to the many-body "
            "Gibbs state; trace = one state compared with the Gibbs state from its eigenbasis and "
            "with the Fermi function")
    sizes_quick = (3, 2, 1, 4, 5)
    sizes_thorough = (3, 2, 1, 4, 5, 6)

    def shards(self, tier):
        return super().shards(tier) + [["cold", n, r] for n in (4, 3, 2, 1) for r in range(3)]

    def cases(self, shard, tier):
        if shard[0] != "cold":
            yield from super().cases(shard, tier)
            return
        n, r = shard[1:]
        for i, c in enumerate(bdg_cases(n, "quick")):
            if i % 3 == r and (c[0] != "lat" or i % 7 == 0 or n < 3):
                for e in (2, 3, 4) if tier != "quick" or i % 3 == 0 else (2 + i % 3,):
                    yield ["scaled", n, e, c]

    def bounds(self, tier):
        return super().bounds(tier) + "; temperatures to 1e-4"

    def run(self, case, rec):
        n = case[1]
        A, B = bdg(case)
        H = ref.coeff_H(A, B)
        rec.state(H.tobytes())
        al = ref.alphas(n)
        op = ref.quad(H, al)
        # rounding of the energies is of the order of eps times the largest one
        tol = 1e-8 + 1e-13 * np.abs(np.linalg.eigvalsh(op)).max()
        want = ref.gibbs(op)
        keep = H.copy()
        outs = [("coefficients", ff.generate_gaussian_state(n, H)),
                ("given operators", ff.generate_gaussian_state(n, H, ff.jordan_wigner_alphas(n)))]
        if n >= 3:
            outs.append(("operator", ff.generate_gaussian_state(n, op)))
            outs.append(("operator+alphas", ff.generate_gaussian_state(n, op, al)))
            # a coefficient matrix need not have the particle-hole symmetry
            d = np.arange(2 * n)
            K = H + np.diag((d % 3) * 0.5) + 0.25j * (np.eye(2 * n, k=1) - np.eye(2 * n, k=-1))
            wantK = ref.gibbs(ref.quad(K, al))
            for name, rho in (("coefficients without the symmetry", ff.generate_gaussian_state(n, K)),
                              ("the same, given operators", ff.generate_gaussian_state(n, K, al))):
                rec.trace()
                rec.check(ref.dist(rho, wantK) < tol, "%s: not the Gibbs state", name)
        else:  # both sizes coincide: an operator without the symmetry of a coefficient matrix
            for c in (0, 1.25, -3):
                M = op + c * np.eye(2**n)
                gap = np.abs(np.roll(M, n, axis=(0, 1)).T + M).max()
                if gap > 1e-2 and gap > 1e-3 * np.abs(M).max():
                    outs.append(("operator of the size of a coefficient matrix", ff.generate_gaussian_state(n, M)))
        if not H.imag.any():
            outs.append(("real array", ff.generate_gaussian_state(n, H.real.copy())))
            if np.array_equal(H.real, np.round(H.real)):
                outs.append(("integer array", ff.generate_gaussian_state(n, H.real.astype(int))))
        C = ref.symplectic(2, n)
        rot = [sum(C[k, l] * al[l] for l in range(2 * n)) for k in range(2 * n)]
        rho_r = ff.generate_gaussian_state(n, H, rot)
        rec.trace()
        rec.check(ref.dist(rho_r, ref.gibbs(ref.quad(H, rot))) < tol,
                  "rotated operators: not the Gibbs state")
        fermi = ref.herm_exp(np.zeros_like(H), 1)
        w, v = np.linalg.eigh(H)
        fermi = (v * (1 / (1 + np.exp(-2 * np.clip(w, -300, 300))))) @ v.conj().T
        for name, rho in outs:
            rec.trace()
            rec.trans()
            rec.check(ref.dist(rho, want) < tol, "%s: not the Gibbs state", name)
            rec.check(abs(np.trace(rho) - 1) < 1e-9, "%s: trace", name)
            rec.check(ref.dist(rho, rho.conj().T) < 1e-9, "%s: not Hermitian", name)
            rec.check(np.linalg.eigvalsh(rho).min() > -1e-9, "%s: not positive", name)
        G = ff.compute_2corr_matrix(outs[0][1], n, conjugation=1)
        rec.check(ref.dist(G, fermi) < tol, "two-point function is not the Fermi function")
        rec.check(np.array_equal(H, keep), "input modified")
        rec.outcome(np.round(G, 6).tobytes())


class Wick(Bdg):
    rule = ("state = (Gaussian state, index subset); transition = one index pair added to the "
            "subset; trace = one higher moment compared with the Pfaffian of the package's own "
            "two-point matrix")
    sizes_quick = (3, 2, 1, 4, 5)
    sizes_thorough = (3, 2, 1, 4, 5)
    split = 16

    def bounds(self, tier):
        return ("families for 1..4 sites%s, scaled to entries of at most 3; every index subset (odd ones too), ladder "
                "and Majorana operators" % ", some for 5")

    def cases(self, shard, tier):
        n, r, k = shard
        full = list(bdg_cases(n, "quick"))
        if tier == "quick":
            full = [c for c in full if c[0] != "lat"] if n >= 4 else full
        if n == 5:
            full = [c for c in full if c[0] != "lat"][3::40 if tier == "quick" else 6]
        for i, c in enumerate(full):
            if i % k == r:
                yield c

    def run(self, case, rec):
        n = case[1]
        A, B = bdg(case)
        H = ref.coeff_H(A, B)
        H = H / max(1, np.abs(H).max() / 3)
        rho = ff.generate_gaussian_state(n, H)
        for fam in ("ladder", "majorana"):
            ops = ff.jordan_wigner_alphas(n) if fam == "ladder" else ff.jordan_wigner_majoranas(n)
            G = ff.compute_2corr_matrix(rho, n, ops)
            if fam == "ladder":
                rec.check(ref.dist(G, ff.correlation_matrix(rho)) < 1e-12, "correlation_matrix differs")
            products = {(): np.asarray(rho)}
            for size in range(1, min(2 * n, 8) + 1):
                nxt = {}
                for sub in itertools.combinations(range(2 * n), size):
                    rec.state((H.tobytes(), fam, sub))
                    rec.trans()
                    m = nxt[sub] = products[sub[:-1]] @ ops[sub[-1]]
                    want = 0
                    if size % 2 == 0:
                        sG = np.triu(G[np.ix_(sub, sub)], 1)
                        want = ff.pf(sG - sG.T)
                        rec.trace()
                    rec.check(abs(np.trace(m) - want) < 1e-8, "%s moment %s is not the Pfaffian", fam, sub)
                products = nxt
            rec.outcome(np.round(G, 6).tobytes())


class TwoPoint(Space):
    rule = ("state = matrix unit |b><b'| (the correlation functions are linear in the state); "
            "transition = one operator pair; trace = one correlation matrix compared entrywise")
    assumptions = ["dense states are also compared, which covers a non-linear implementation"]

    def bounds(self, tier):
        return "all matrix units for 1..%d sites, 3 operator sets, 3 conjugation modes" % (
            2 if tier == "quick" else 3)

    def shards(self, tier):
        out = [["dense", n, r] for n in (6, 5, 4, 3, 2, 1) for r in range(2)]
        for n in (1, 2) if tier == "quick" else (1, 2, 3):
            out += [["unit", n, r] for r in range(2**n)]
        if tier == "quick":
            out += [["unit", 3, r] for r in range(0, 8, 3)]
        return out

    def cases(self, shard, tier):
        what, n, r = shard
        if what == "unit":
            for c in range(2**n):
                for k in ("jw", "maj", "rot"):
                    yield [what, n, r, c, k]
                if r != c:  # weak coherences on a generic diagonal state
                    for e in (2, 4, 7):
                        yield ["weak", n, r, c, e, "jw"]
        else:
            for s in range(3):
                for kind in ("complex", "real", "int"):
                    for lay in ("C", "F", "strided", "readonly"):
                        for k in ("jw", "maj", "rot"):
                            if n < 4 or (s == r and lay == "C"):
                                yield [what, n, s + 3 * r, kind, lay, k]

    def run(self, case, rec):
        what, n = case[:2]
        d = 2**n
        if what == "unit":
            rho = np.zeros((d, d), dtype=complex)
            rho[case[2], case[3]] = 1
        elif what == "weak":
            rho = np.diag(np.arange(1.0, d + 1) / (d * (d + 1) / 2)).astype(complex)
            rho[case[2], case[3]] = (1 - 0.5j) * 10.0**-case[4]
            rho[case[3], case[2]] = rho[case[2], case[3]].conj()
        else:
            rho = ref.layouts(ref.dense(case[2], (d, d), case[3]))[case[4]]
        k = case[-1]
        ops = {"jw": ref.alphas, "maj": ref.majoranas,
               "rot": lambda n: [sum(c * a for c, a in zip(row, ref.alphas(n)))
                                 for row in ref.dense(9, (2 * n, 2 * n))]}[k](n)
        rec.state((n, rho.tobytes()))
        keep = rho.copy()

        def table(f):
            return np.array([[f(a, b) for b in ops] for a in ops])

        plain = table(lambda a, b: np.trace(rho @ (a @ b)))
        want = {None: plain,
                -1: table(lambda a, b: np.trace(rho @ (a.conj().T @ b))),
                1: table(lambda a, b: np.trace(rho @ (a @ b.conj().T)))}
        for conj in (None, -1, 1, -3, 2, 0.0, -1.5):
            w = want[conj if conj in want else (-1 if int(conj) < 0 else 1)]
            got = ff.compute_2corr_matrix(rho, n, ops, conjugation=conj)
            rec.trans(4 * n * n)
            rec.trace()
            rec.check(ref.dist(got, w) < 1e-10, "two-point matrix, conjugation=%s", conj)
        cov = plain - plain.T
        got = [ff.compute_cov_matrix(rho, n, ops), ff.compute_cov_matrix(rho, alphas=ops)]
        if k == "jw":
            got += [ff.compute_cov_matrix(rho, n), ff.compute_cov_matrix(rho)]
            rec.check(ref.dist(ff.compute_2corr_matrix(rho, n), plain) < 1e-10, "default operators")
            rec.check(ref.dist(ff.correlation_matrix(rho), plain) < 1e-10, "correlation_matrix")
        for g in got:
            rec.trace()
            rec.check(ref.dist(g, cov) < 1e-10, "covariance is not G - G^T")
        rec.check(np.array_equal(rho, keep), "state modified")
        rec.outcome(np.round(plain, 8).tobytes())


# --------------------------------------------------------------------------
class Predicates(Space):
    rule = ("state = candidate matrix; transition = one entry changed; trace = one predicate "
            "verdict compared with the defining equation")
    assumptions = ["the tests compare with NumPy's allclose tolerances (1e-5 relative, 1e-8 absolute); matrices "
                   "within three times that distance of the boundary but not on it are not decided"]

    ALPH = [0, 1, -1, 1j]

    def bounds(self, tier):
        return "is_symp: all 2x2 over 5 values, 4x4 to 10x10 monomial and perturbed; is_matchgate: all " \
               "corner x inner over {0,1,-1,i}; canonical form: all 4x4 skew over {0,1,-1}"

    def shards(self, tier):
        return [["symp2", 0], ["symp4", 0], ["pert", 0], ["shape", 0], ["can4", 0], ["can6", 0],
                ["canx", 0]] + [["match", r] for r in range(16)]

    def cases(self, shard, tier):
        what, r = shard
        if what == "symp2":
            for v in itertools.product(range(5), repeat=4):
                yield ["symp2", list(v)]
        elif what == "symp4":
            for p in itertools.permutations(range(4)):
                for ph in itertools.product(range(4), repeat=4):
                    yield ["symp4", list(p), list(ph)]
        elif what == "pert":
            for n in (1, 2, 3, 4, 5):
                for s in range(3):
                    yield ["pert", n, s, -1, 0, 0]
                    for i in range(2 * n):
                        for j in range(2 * n):
                            for e in range(7):
                                yield ["pert", n, s, i, j, e]
        elif what == "shape":
            for a in range(1, 8):
                for b in range(1, 8):
                    yield ["shape", a, b]
        elif what == "match":
            for c in range(16):
                for inner in range(256):
                    yield ["match", r * 16 + c, inner]
            for c in range(8):
                for e in range(5):
                    yield ["near", r * 8 + c, e]
        elif what == "can4":
            for v in itertools.product((0, 1, -1), repeat=6):
                yield ["can4", list(v)]
        elif what == "can6":
            for v in itertools.product((0, 1, -2), repeat=3):
                for i, j in itertools.product(range(6), repeat=2):
                    yield ["can6", list(v), i, j]
        elif what == "canx":
            for v in range(12):
                yield ["canx", v]

    def run(self, case, rec):
        what = case[0]
        rec.state(case)
        rec.trans()
        rec.trace()
        if what in ("symp2", "symp4", "pert"):
            if what == "symp2":
                vals = [0, 1, -1, 1j, 0.5]
                U = np.array([vals[i] for i in case[1]], dtype=complex).reshape(2, 2)
            elif what == "symp4":
                U = np.zeros((4, 4), dtype=complex)
                for i in range(4):
                    U[i, case[1][i]] = 1j ** case[2][i]
            else:
                n, s, i, j, e = case[1:]
                U = [ref.symplectic(1, n), np.eye(2 * n, dtype=complex),
                     np.kron(np.diag([2, 0.5]), np.eye(n))][s].astype(complex)
                if i >= 0:
                    U[i, j] += [1e-3, 1e-3j, 1, -2 * U[i, j], 1e-4, 1e-6j, 2e-5][e]
            m = U.shape[0] // 2
            S = ref.swapmat(m)
            gap = np.abs(U @ S @ U.T - S) / (1e-8 + 1e-5 * S)
            if 1e-3 < gap.max() < 3:
                return
            want = bool(gap.max() <= 1e-3)
            got = ff.is_symp(U)
            rec.check(bool(got) == want, "is_symp says %s", got)
            if not U.imag.any():
                rec.check(bool(ff.is_symp(U.real)) == want, "is_symp differs on a real array")
                if np.array_equal(U.real, np.round(U.real)):
                    for T in (int, np.int8, np.float32):
                        rec.check(bool(ff.is_symp(U.real.astype(T))) == want, "is_symp differs on %s", np.dtype(T))
            rec.outcome(("symp", want))
        elif what == "shape":
            a, b = case[1:]
            U = np.eye(a, b)
            if a != b or a % 2:
                rec.check(not ff.is_symp(U), "is_symp accepts shape %dx%d", a, b)
                rec.check(not ff.check_canonical_form(np.zeros((a, b))),
                          "check_canonical_form accepts shape %dx%d", a, b)
            if (a, b) != (4, 4):
                rec.check(not ff.is_matchgate(U), "is_matchgate accepts shape %dx%d", a, b)
        elif what == "match":
            c, i = case[1:]
            A = self.ALPH
            co = [A[(c >> (2 * k)) & 3] for k in range(4)]
            inn = [A[(i >> (2 * k)) & 3] for k in range(4)]
            M = np.zeros((4, 4), dtype=complex)
            if (c + i) % 3 == 0:
                M[:] = 7  # entries outside the two blocks do not matter
            M[0, 0], M[0, 3], M[3, 0], M[3, 3] = co
            M[1, 1], M[1, 2], M[2, 1], M[2, 2] = inn
            want = co[0] * co[3] - co[1] * co[2] == inn[0] * inn[3] - inn[1] * inn[2]
            got = ff.is_matchgate(M)
            rec.check(bool(got) == want, "is_matchgate says %s", got)
            rec.check(bool(ff.is_matchgate(M, verbose=True)) == want, "verbose differs")
            if not M.imag.any() and np.array_equal(M.real, np.round(M.real)):
                for T in (float, int, np.int8):
                    rec.check(bool(ff.is_matchgate(M.real.astype(T))) == want, "is_matchgate differs on %s", np.dtype(T))
                if np.abs(M).max() <= 7:  # 8-bit entries whose products do not fit in 8 bits
                    rec.check(bool(ff.is_matchgate((16 * M.real).astype(np.int8))) == want, "is_matchgate differs on int8")
            rec.outcome(("match", want))
        elif what == "near":  # dense, with one corner or inner entry moved off the condition
            c, e = case[1:]
            M = ref.dense(c // 8, (4, 4), "real" if c % 2 else "complex") * [1, 3, 0.01, 10][c // 2 % 4]
            det = M[1, 1] * M[2, 2] - M[1, 2] * M[2, 1]
            M[3, 3] = (det + M[0, 3] * M[3, 0]) / M[0, 0]
            x, y = [(0, 0), (0, 3), (1, 2), (3, 3), (2, 2)][e]
            rec.check(bool(ff.is_matchgate(M)), "matchgate rejected")
            rec.check(bool(ff.is_matchgate(np.asfortranarray(M))) and bool(ff.is_matchgate(M.T)), "layout")
            for eps in (1e-2, 1e-3, 1e-4, 1e-4j):
                M2 = M.copy() if eps.imag == 0 else M + 0j
                M2[x, y] *= 1 + eps
                co = M2[0, 0] * M2[3, 3] - M2[0, 3] * M2[3, 0]
                inn = M2[1, 1] * M2[2, 2] - M2[1, 2] * M2[2, 1]
                if abs(co - inn) > 3 * (1e-8 + 1e-5 * max(abs(inn), abs(co))):
                    rec.check(not ff.is_matchgate(M2), "determinants %s and %s accepted as equal", co, inn)
            M2 = M.copy()
            M2[0, 1:3] = M2[1:3, 0] = M2[3, 1:3] = M2[1:3, 3] = 0
            rec.check(bool(ff.is_matchgate(M2)), "matchgate with empty cross rejected")
        elif what == "can4":
            v = case[1]
            L = np.zeros((4, 4))
            for x, (i, j) in zip(v, itertools.combinations(range(4), 2)):
                L[i, j], L[j, i] = x, -x
            want = v[1] == v[2] == v[3] == v[4] == 0
            rec.check(bool(ff.check_canonical_form(L)) == want, "check_canonical_form wrong")
            rec.check(bool(ff.check_canonical_form(L + 0j)) == want, "complex dtype differs")
            if np.array_equal(L, np.round(L)):
                for T in (int, np.int8):
                    rec.check(bool(ff.check_canonical_form(L.astype(T))) == want, "%s differs", np.dtype(T))
            rec.outcome(("can", want))
        elif what == "can6":
            v, i, j = case[1:]
            L = np.zeros((6, 6))
            for k in range(3):
                L[2 * k, 2 * k + 1], L[2 * k + 1, 2 * k] = v[k], -v[k]
            rec.check(bool(ff.check_canonical_form(L)), "canonical matrix rejected")
            keep = L
            for e in (0.01, 1e-4, 1e-6):
                L = keep.copy()
                L[i, j] += e  # one-sided change: no longer skew
                if e > 1e-4 or keep[i, j] == 0:
                    rec.check(not ff.check_canonical_form(L), "non-skew matrix accepted (defect %s)", e)
                L[j, i] -= e
                want = i != j and i // 2 == j // 2 or i == j
                if i == j:
                    L[i, i] = 0.0
                rec.check(bool(ff.check_canonical_form(L)) == want, "misplaced element %s", e)
        elif what == "canx":
            v = case[1]
            L = np.zeros((4, 4), dtype=complex)
            L[0, 1], L[1, 0] = 1, -1
            L[2, 3], L[3, 2] = [(1j, -1j), (1, 1), (0.5, -0.4), (1 + 1e-3j, -1 - 1e-3j)][v % 4]
            if v >= 4:
                L = np.roll(L, 1 + v % 3, axis=(0, 1))
            rec.check(not ff.check_canonical_form(L), "invalid matrix accepted")
