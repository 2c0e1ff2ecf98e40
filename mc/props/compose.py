"""Guarantees that span several modules: normal modes, marginals, independent subsystems, identities."""

import itertools
import math

import networkx as nx
import numpy as np

import ff
from mc import ref
from mc.engine import Space
from mc.props.fermion import Bdg, bdg, bdg_cases
from mc.props.graph import FAMILIES, NONPLANAR, dress, from_mask


class NormalModes(Bdg):
    rule = ("state = (A, B) coefficients; transition = passing from the original operators to the normal "
            "modes (or Majorana modes) by the returned rotation; trace = one operator, state or correlation "
            "matrix built in the new operators compared with the original one")
    sizes_quick = (3, 2, 1, 4, 5)
    sizes_thorough = (3, 2, 1, 4, 5, 6)

    def run(self, case, rec):
        n = case[1]
        A, B = bdg(case)
        H = ff.build_H(n, A, B)
        rec.state((A.tobytes(), B.tobytes()))
        al = ff.jordan_wigner_alphas(n)
        op = ff.build_op(n, H, al)
        sc = 1 + 2 * n * np.abs(H).max()
        tol = 1e-7 * sc
        L, U = ff.eigh_sp(H)
        b = ff.rotate_operators(U, al, Left=True)
        rec.trans()
        rec.trace(3)
        rec.check(ref.dist(ff.compute_algebra_S(b), ref.swapmat(n)) < 1e-7,
                  "the normal modes do not satisfy the anticommutation relations")
        rec.check(ref.dist(ff.build_op(n, L, b), op) < tol, "the normal modes carry another Hamiltonian")
        d = np.real(np.diag(L))
        free = sum(d[k] * (b[k].conj().T @ b[k]) for k in range(2 * n))
        rec.check(ref.dist(free, op) < tol, "the Hamiltonian is not a sum of independent modes")
        for k in range(2 * n):  # each mode is a normal mode
            rec.trans()
            rec.check(ref.dist(op @ b[k] - b[k] @ op, -2 * d[k] * b[k]) < tol, "mode %d is not an eigenmode", k)
        # the direct form
        V = ff.build_V(n, A, B)
        Lv, Uv = ff.eigv_sp(V)
        c = ff.rotate_operators(Uv, al, Left=True)
        rec.trans()
        rec.trace()
        rec.check(ref.dist(ff.build_op(n, Lv, c, direct=True), op) < tol,
                  "the normal modes of the direct form carry another Hamiltonian")
        # Majorana forms
        om = ff.build_Omega(n)
        G = om @ H @ om.conj().T
        gam = ff.jordan_wigner_majoranas(n)
        rec.check(ref.dist(ff.build_op(n, G, gam, direct=True), op) < tol, "Majorana form of the Hamiltonian")
        for f in (ff.eigm_sp, ff.eigm_sp_can):
            Lm, O = f(1j * G.imag)
            m = ff.rotate_operators(O, gam, Left=True)
            rec.trans()
            rec.trace(2)
            rec.check(ref.dist(ff.compute_algebra_S(m), np.eye(2 * n)) < 1e-7,
                      "the Majorana modes do not satisfy their algebra")
            rec.check(ref.dist(ff.build_op(n, Lm, m, direct=True), op) < tol,
                      "the Majorana modes carry another Hamiltonian")
        # the Gibbs state, built mode by mode
        if np.abs(H).max() <= 3:
            rho = ff.generate_gaussian_state(n, H)
            rec.trace(2)
            rec.trans()
            rec.check(ref.dist(ff.generate_gaussian_state(n, L, b), rho) < 1e-7, "the modes give another state")
            occ = ff.compute_2corr_matrix(rho, n, b, conjugation=1)
            rec.check(ref.dist(occ, np.diag(1 / (1 + np.exp(-2 * d)))) < 1e-7,
                      "modes are correlated, or not at their Fermi occupation")
        rec.outcome(np.round(np.sort(d), 6).tobytes())


class Marginals(Bdg):
    rule = ("state = (matrix, cut of the chain); transition = tracing out the sites on one side of the cut; "
            "trace = one reduced matrix whose correlation matrices are compared with the block of the full "
            "ones, or one reduced Gaussian state compared with the Gaussian state of the restricted correlations")
    sizes_quick = (3, 2, 4)
    sizes_thorough = (3, 2, 4, 5)

    def bounds(self, tier):
        return ("all matrix units for 2 and 3 sites (%s), dense matrices to %d sites, every cut; Gaussian states: "
                "families for sites %s" % ("and 4" if tier != "quick" else "4: every third row", 5 if tier == "quick"
                                           else 6, self.sizes_quick if tier == "quick" else self.sizes_thorough))

    def shards(self, tier):
        out = [["unit", n, r] for n in (4, 3, 2) for r in range(2**n) if n < 4 or tier != "quick" or r % 3 == 0]
        out += [["dense", n, 0] for n in ((5, 4, 3, 2) if tier == "quick" else (6, 5, 4, 3, 2))]
        return out + [["gauss"] + s for s in Bdg.shards(self, tier)]

    def cases(self, shard, tier):
        if shard[0] == "unit":
            for c in range(2 ** shard[1]):
                yield shard + [c]
        elif shard[0] == "dense":
            n = shard[1]
            for s in range(6 if n < 5 else 2):
                for kind in ("complex", "real", "int"):
                    for lay in ("C", "F", "strided", "readonly"):
                        if n < 5 or lay in ("F", "strided"):
                            yield ["dense", n, s, kind, lay]
        else:
            for c in Bdg.cases(self, shard[1:], tier):
                if c[0] != "lat" or sum(c[2]) % (1 if tier != "quick" or c[1] < 3 else 3) == 0:
                    yield ["gauss", c]

    def run(self, case, rec):
        if case[0] == "gauss":
            return self.gauss(case[1], rec)
        n = case[1]
        d = 2**n
        if case[0] == "unit":
            rho = np.zeros((d, d), dtype=complex)
            rho[case[2], case[3]] = 1
        else:
            rho = ref.layouts(ref.dense(case[2], (d, d), case[3]))[case[4]]
        rec.state(case)
        ladder = ff.correlation_matrix(rho)
        cov = ff.compute_cov_matrix(rho, n, ff.jordan_wigner_majoranas(n))
        dag = ff.compute_2corr_matrix(rho, n, conjugation=1)
        for k in range(1, n):
            left = ff.partial_trace_over_2(rho, 2**k)
            right = ff.partial_trace_over_1(rho, 2 ** (n - k))
            for part, sites in ((left, list(range(k))), (right, list(range(k, n)))):
                m = len(sites)
                idx = np.ix_(sites + [n + s for s in sites], sites + [n + s for s in sites])
                rec.trans()
                rec.trace(3)
                rec.check(ref.dist(ff.correlation_matrix(part), ladder[idx]) < 1e-9,
                          "correlations of sites %s changed by the partial trace", sites)
                rec.check(ref.dist(ff.compute_cov_matrix(part, m, ff.jordan_wigner_majoranas(m)), cov[idx]) < 1e-9,
                          "covariance of sites %s changed by the partial trace", sites)
                rec.check(ref.dist(ff.compute_2corr_matrix(part, m, conjugation=1), dag[idx]) < 1e-9,
                          "occupations of sites %s changed by the partial trace", sites)
            for j in range(k + 1, n):  # tracing in two steps
                two = ff.partial_trace_over_2(ff.partial_trace_over_2(rho, 2**j), 2**k)
                rec.check(ref.dist(two, left) < 1e-9, "tracing in two steps differs")
                rec.trace()
        rec.outcome(np.round(ladder, 6).tobytes())

    def gauss(self, c, rec):
        n = c[1]
        A, B = bdg(c)
        H = ref.coeff_H(A, B)
        H = H / max(1, np.abs(np.linalg.eigvalsh(H)).max() / 2)
        rec.state((n, H.tobytes()))
        rho = ff.generate_gaussian_state(n, H)
        full = ff.compute_2corr_matrix(rho, n, conjugation=1)
        for k in range(1, n):
            for part, sites in ((ff.partial_trace_over_2(rho, 2**k), list(range(k))),
                                (ff.partial_trace_over_1(rho, 2 ** (n - k)), list(range(k, n)))):
                m = len(sites)
                idx = sites + [n + s for s in sites]
                G = full[np.ix_(idx, idx)]
                w, v = np.linalg.eigh((G + G.conj().T) / 2)
                Hr = (v * (-0.5 * np.log(1 / w - 1))) @ v.conj().T
                rec.trans()
                rec.trace()
                rec.check(ref.dist(ff.generate_gaussian_state(m, Hr), part) < 1e-7,
                          "the state of sites %s is not the Gaussian state of its correlations", sites)
        rec.outcome(np.round(full, 6).tobytes())


class Independent(Bdg):
    rule = ("state = pair of Hamiltonians (or states) on two sets of sites; transition = joining them; trace = "
            "one operator, state, correlation matrix or measure of the joint system compared with its parts")
    SIZES = [(1, 1), (1, 2), (2, 1), (2, 2), (1, 3), (3, 1)]

    def bounds(self, tier):
        return "all pairs of %d Hamiltonians and states per size for site splits %s" % (
            24 if tier == "quick" else 80, self.SIZES)

    def shards(self, tier):
        return [[a, b, r] for a, b in self.SIZES[::-1] for r in range(4)]

    @staticmethod
    def pick(n, m):
        cs = [c for c in bdg_cases(n, "quick") if not (c[0] == "dense" and c[3] == 30)]
        return cs[::max(1, len(cs) // m)][:m]

    def cases(self, shard, tier):
        a, b, r = shard
        m = 24 if tier == "quick" else 80
        P, Q = self.pick(a, m), self.pick(b, m)
        for i, p in enumerate(P):
            for j, q in enumerate(Q):
                if (i + j) % 4 == r:
                    yield [p, q, i, j]

    @staticmethod
    def state(n, H, k):
        """One of several kinds of n-site states."""
        if k % 4 == 0:
            return ff.generate_gaussian_state(n, H)
        psi = ref.unitary(k, 2**n)[:, 0]
        if k % 4 == 1:
            return np.outer(psi, psi.conj())
        if k % 4 == 2:  # mixed, with definite parity
            P = np.diag([1 - bin(x).count("1") % 2 for x in range(2**n)])
            rho = P @ (np.outer(psi, psi.conj()) + np.eye(2**n)) @ P
            return rho / np.trace(rho)
        e = np.eye(2**n)[k % 2**n]
        return np.outer(e, e) + 0j

    def run(self, case, rec):
        p, q, i, j = case
        a, b = p[1], q[1]
        n = a + b
        (A1, B1), (A2, B2) = bdg(p), bdg(q)
        rec.state(case)
        H1, H2 = ff.build_H(a, A1, B1), ff.build_H(b, A2, B2)
        H = ff.build_H(n, ff.kron_plus(A1, A2), ff.kron_plus(B1, B2))
        o1, o2 = ff.build_op(a, H1, ff.jordan_wigner_alphas(a)), ff.build_op(b, H2, ff.jordan_wigner_alphas(b))
        op = ff.build_op(n, H, ff.jordan_wigner_alphas(n))
        sc = 1 + np.abs(op).max()
        rec.trans()
        rec.trace(2)
        rec.check(ref.dist(op, np.kron(o1, np.eye(2**b)) + np.kron(np.eye(2**a), o2)) < 1e-9 * sc,
                  "the joint Hamiltonian is not the sum of its parts")
        if max(np.abs(H1).max(), np.abs(H2).max()) < 4:
            r1, r2 = ff.generate_gaussian_state(a, H1), ff.generate_gaussian_state(b, H2)
            rec.check(ref.dist(ff.generate_gaussian_state(n, H), np.kron(r1, r2)) < 1e-8,
                      "the joint Gaussian state is not the product of its parts")
        else:
            H1, H2 = H1 / np.abs(H1).max(), H2 / max(1, np.abs(H2).max())
        r1, r2 = self.state(a, H1, i), self.state(b, H2, i // 4 + j)
        rho = np.kron(r1, r2)
        rec.trans()
        rec.trace(9)
        for part, f in ((r1, lambda x: ff.partial_trace_over_2(x, 2**a)),
                        (r2, lambda x: ff.partial_trace_over_1(x, 2**b))):
            rec.check(ref.dist(f(rho), part) < 1e-9, "the parts cannot be recovered by partial traces")
        x = ff.stabilizer_distribution(rho)
        rec.check(ref.dist(x, np.kron(ff.stabilizer_distribution(r1), ff.stabilizer_distribution(r2))) < 1e-10,
                  "the Pauli distribution of a product is not the product")
        for al in (2, 1, 3):
            # a completely mixed part counts 0, not -log d
            if any(np.max(ff.stabilizer_distribution(r)) > 1 - 1e-12 for r in (r1, r2)):
                break
            rec.check(abs(ff.SRE(rho, al) - ff.SRE(r1, al) - ff.SRE(r2, al)) < 1e-7, "magic is not additive")
        even = all(k % 4 != 1 for k in (i, i // 4 + j))
        if even:
            for k in (1, 2, 3):
                rec.check(abs(ff.FAF(rho, k) - ff.FAF(r1, k) - ff.FAF(r2, k)) < 1e-8,
                          "anti-flatness is not additive")
            G, G1, G2 = ff.correlation_matrix(rho), ff.correlation_matrix(r1), ff.correlation_matrix(r2)
            i1, i2 = list(range(a)) + list(range(n, n + a)), list(range(a, n)) + list(range(n + a, 2 * n))
            want = np.zeros_like(G)
            want[np.ix_(i1, i1)], want[np.ix_(i2, i2)] = G1, G2
            rec.check(ref.dist(G, want) < 1e-9, "independent sites are correlated")
        for al in (0.5, 1, 2, 3, math.inf):
            rec.check(abs(ff.renyi_entropy(rho, al) - ff.renyi_entropy(r1, al) - ff.renyi_entropy(r2, al)) < 1e-7,
                      "entropy is not additive")
        s1, s2 = self.state(a, H1, i + 1), self.state(b, H2, j + 2)
        sig = np.kron(s1, r2)
        rec.check(abs(ff.trace_distance(rho, sig) - ff.trace_distance(r1, s1)) < 1e-8,
                  "an independent system changes the trace distance")
        rec.check(abs(ff.total_variation_distance(rho, sig) - ff.total_variation_distance(r1, s1)) < 1e-9,
                  "an independent system changes the total variation")
        rec.check(abs(ff.jensen_shannon_divergence(rho, sig) - ff.jensen_shannon_divergence(r1, s1)) < 1e-9,
                  "an independent system changes the Jensen-Shannon divergence")
        both = np.kron(s1, s2)
        rec.check(abs(ff.bhattacharyya_coeff(rho, both)
                      - ff.bhattacharyya_coeff(r1, s1) * ff.bhattacharyya_coeff(r2, s2)) < 1e-9,
                  "the Bhattacharyya coefficient is not multiplicative")
        k1, k2, kk = ff.relative_entropy(r1, s1), ff.relative_entropy(r2, s2), ff.relative_entropy(rho, both)
        if max(k1, k2) < 10:
            rec.check(abs(kk - k1 - k2) < 1e-7 * (1 + abs(kk)), "relative entropy is not additive")
        rec.outcome((np.round(x[:8], 6).tobytes(), round(float(np.real(o1[0, 0])), 6)))


class MatrixIdentities(Space):
    rule = ("state = matrix (or pair of matrices); transition = direct sum, transpose, congruence, row expansion; "
            "trace = one routine compared with another routine of the package on the transformed matrix")

    def bounds(self, tier):
        return ("all 0/1/-1 matrices of size 1 and 2 and their pairs, all 3x3 0/1 matrices, all permutations of up "
                "to %d, dense matrices to 8x8 in 3 dtypes" % (5 if tier == "quick" else 6))

    def shards(self, tier):
        return [["sum", r] for r in range(9)] + [["emb3", r] for r in range(8)] + [
            ["perm", n] for n in ((5, 4, 3, 2, 1) if tier == "quick" else (6, 5, 4, 3, 2, 1))] + [
                ["dense", s] for s in range(6)]

    def cases(self, shard, tier):
        what, r = shard
        if what == "sum":
            for i in range(81):
                if i % 9 == r:
                    for j in range(81):
                        yield ["sum", i, j]
        elif what == "emb3":
            for m in range(512):
                if m % 8 == r:
                    yield ["emb3", m]
        elif what == "perm":
            for p in itertools.permutations(range(r)):
                yield ["perm", list(p)]
        else:
            for kind in ("complex", "real", "int"):
                for a in range(1, 5):
                    for b in range(1, 5):
                        if a + b <= 7 or kind == "int" and r == 0:
                            yield ["dense", r, kind, a, b]

    @staticmethod
    def close(x, y, sc=1.0):
        return abs(complex(x) - complex(y)) < 1e-9 * (1 + abs(complex(y)) + sc)

    def run(self, case, rec):
        what = case[0]
        rec.state(case)
        if what == "sum":
            M, N = (np.array([(x // 3**k) % 3 - 1 for k in range(4)]).reshape(2, 2) for x in case[1:])
            self.pair(M, N, rec)
        elif what == "dense":
            s, kind, a, b = case[1:]
            self.pair(ref.dense(s, (a, a), kind), ref.dense(s + 5, (b, b), kind), rec, big=a + b > 6)
        elif what == "emb3":
            M = np.array([(case[1] >> k) & 1 for k in range(9)]).reshape(3, 3)
            self.embed(M, rec)
            for i in range(3):  # expansion along every row
                rec.trans()
                rec.trace(2)
                minors = [np.delete(np.delete(M, i, 0), j, 1) for j in range(3)]
                rec.check(ff.dt(M) == sum((-1) ** (i + j) * M[i, j] * ff.dt(minors[j]) for j in range(3)),
                          "determinant: expansion along row %d", i)
                rec.check(ff.pt(M) == sum(M[i, j] * ff.pt(minors[j]) for j in range(3)),
                          "permanent: expansion along row %d", i)
        else:
            p = case[1]
            n = len(p)
            P = ff.permutation_to_matrix(p)
            rec.trans(n)
            rec.trace(4)
            rec.check(ff.dt(P) == ff.sgn(p), "determinant of a permutation matrix is not the sign")
            rec.check(self.close(ff.dt_eigen(P), ff.sgn(p)), "eigenvalue determinant of a permutation matrix")
            rec.check(ff.pt(P) == 1, "permanent of a permutation matrix is not 1")
            inv = [p.index(k) for k in range(n)]
            rec.check(ff.sgn(inv) == ff.sgn(p), "the inverse has another sign")
            M = ref.dense(3, (n, n), "int")
            rec.check(ff.dt(P @ M) == ff.sgn(p) * ff.dt(M), "permuted rows: determinant")
            rec.check(ff.pt(P @ M) == ff.pt(M), "permuted rows: permanent")
            if n % 2 == 0:
                A, S = M - M.T, M + M.T
                rec.check(self.close(ff.pf(P @ A @ P.T), ff.sgn(p) * ff.pf(A)), "permuted Pfaffian")
                rec.check(self.close(ff.hf(P @ S @ P.T), ff.hf(S)), "permuted Hafnian")
        rec.outcome(what)

    def embed(self, M, rec):
        n = len(M)
        Z = np.zeros((n, n), dtype=M.dtype)
        rec.trans()
        rec.trace(3)
        sc = float(np.prod(np.abs(M).sum(axis=1))) if n else 1
        want = (-1) ** (n * (n - 1) // 2) * ff.dt(M)
        rec.check(self.close(ff.pf(np.block([[Z, M], [-M.T, Z]])), want, sc),
                  "Pfaffian of a bipartite matrix is not the determinant")
        rec.check(self.close(ff.hf(np.block([[Z, M], [M.T, Z]])), ff.pt(M), sc),
                  "Hafnian of a bipartite matrix is not the permanent")
        rec.check(self.close(ff.dt_eigen(M), ff.dt(M), sc), "the two determinants differ")
        rec.check(self.close(ff.dt(M.T), ff.dt(M), sc) and self.close(ff.pt(M.T), ff.pt(M), sc), "transpose")

    def pair(self, M, N, rec, big=False):
        if len(M) <= 3:
            self.embed(M, rec)
        D = ff.kron_plus(M, N)
        sc = float(np.prod(np.abs(D).sum(axis=1)))
        rec.trans()
        rec.trace(5)
        rec.check(self.close(ff.dt(D), ff.dt(M) * ff.dt(N), sc), "determinant of a direct sum")
        rec.check(self.close(ff.pt(D), ff.pt(M) * ff.pt(N), sc), "permanent of a direct sum")
        rec.check(self.close(ff.dt_eigen(D), ff.dt_eigen(M) * ff.dt_eigen(N), sc),
                  "eigenvalue determinant of a direct sum")
        if len(M) == len(N) and len(M) <= 3:
            rec.check(self.close(ff.dt(M @ N), ff.dt(M) * ff.dt(N), sc * 9), "determinant of a product")
        A1, A2, S1, S2 = M - M.T, N - N.T, M + M.T, N + N.T
        sc = float(np.prod(np.abs(ff.kron_plus(S1, S2)).sum(axis=1) + np.abs(ff.kron_plus(A1, A2)).sum(axis=1)))
        rec.check(self.close(ff.hf(ff.kron_plus(S1, S2)), ff.hf(S1) * ff.hf(S2), sc), "Hafnian of a direct sum")
        rec.check(self.close(ff.pf(ff.kron_plus(A1, A2)), ff.pf(A1) * ff.pf(A2), sc), "Pfaffian of a direct sum")
        rec.check(self.close(ff.pf(A1) ** 2, ff.dt(A1), sc), "the square of the Pfaffian is not the determinant")
        rec.check(self.close(ff.pf(A1.T), (-1) ** (len(A1) // 2) * ff.pf(A1), sc), "Pfaffian of the transpose")
        if len(M) % 2 == 0 and not big:
            Q = ref.dense(4, M.shape, "int")
            rec.check(self.close(ff.pf(Q @ A1 @ Q.T), ff.dt(Q) * ff.pf(A1), sc * 600), "Pfaffian of a congruence")


class MatchingRecursion(Space):
    rule = ("state = weighted graph; transition = deleting one edge, or an edge with both ends; trace = one count "
            "compared with the counts of its successors, the Hafnian of its adjacency matrix or the listed matchings")

    def bounds(self, tier):
        return ("all labelled graphs on <= 4 vertices and all on 5 and 6 up to isomorphism (NetworkX atlas), four "
                "weightings; %d families to 36 vertices, every edge" % (len(FAMILIES) + len(NONPLANAR)))

    def shards(self, tier):
        return [["atlas", r] for r in range(8)] + [["fam", k] for k in FAMILIES if k not in ("grid66",)] + [
            ["non", k] for k in NONPLANAR if k not in ("heawood",)] + [["grid66", r] for r in range(4)]

    def cases(self, shard, tier):
        what, k = shard
        if what == "atlas":
            for i, G in enumerate(nx.graph_atlas_g()):
                if i % 8 == k and 1 <= len(G) <= 6:
                    for w in (0, 1, 3, 4):
                        yield ["atlas", i, w]
                    for w in range(4):
                        yield ["signed", i, w]
        elif what == "grid66":
            for e in range(60):
                if e % 4 == k:
                    yield ["grid66", e, 0]
        else:
            for w in (0, 1, 3):
                yield [what, k, w]

    @staticmethod
    def count(G):
        return complex(ff.count_perfect_matchings(G))

    def signed(self, k, w, rec):
        """Weights of either sign: the count has the magnitude of the total, which is all a root keeps."""
        G = nx.Graph(nx.graph_atlas(k))
        for i, (u, v) in enumerate(sorted(G.edges)):
            G[u][v]["weight"] = [-1, -0.5, -2, 1][(i * (w + 1)) % 4] * (1 if i % 3 != w else -1) * (1 + (w == 2) * i)
        rec.state(("signed", k, w))
        rec.trans(G.number_of_edges())
        rec.trace()
        A = nx.to_numpy_array(G, nodelist=list(G))
        want = ref.hafnian(A.tolist()) if len(G) % 2 == 0 else 0
        c = self.count(G)
        tol = 1e-7 * (1 + abs(c)) + 2e-7 * math.sqrt(np.prod(np.maximum(np.linalg.norm(A, axis=1), 1)))
        rec.check(abs(abs(c) - abs(want)) < tol, "signed weights: count %s, total %s", c, want)

    def run(self, case, rec):
        what, k, w = case
        if what == "signed":
            self.signed(k, w, rec)
            return
        if what == "atlas":
            G = nx.graph_atlas(k)
        elif what == "grid66":
            G = FAMILIES["grid66"]()
            G.remove_nodes_from([(0, 0), (0, 1)])
        else:
            G = (FAMILIES if what == "fam" else NONPLANAR)[k]()
        G = nx.convert_node_labels_to_integers(G)
        G = dress(G, "int", 0, w)
        n = len(G)
        rec.state((what, k, w))
        c = self.count(G)
        # the count is the root of a determinant: rounding noise is the root of eps times Hadamard's bound
        rows = np.linalg.norm(nx.to_numpy_array(G, weight="weight"), axis=1)
        tol = 1e-7 * (1 + abs(c)) + 2e-7 * math.sqrt(np.prod(np.maximum(rows, 1)))
        edges = list(G.edges(data=True))
        if what == "grid66":
            edges = edges[k % len(edges):][:1]
        elif n > 16:
            edges = edges[:12]
        for u, v, d in edges:
            rec.trans(2)
            rec.trace()
            H, K = G.copy(), G.copy()
            H.remove_edge(u, v)
            K.remove_nodes_from([u, v])
            rest = self.count(K) if len(K) else 1
            want = self.count(H) + d.get("weight", 1) * rest
            rec.check(abs(c - want) < tol, "edge %s-%s: count %s, without it and with it %s", u, v, c, want)
        if n <= 8 and w != 4 or n <= 6:
            rec.trace(2)
            h = complex(ff.hf(nx.to_numpy_array(G, weight="weight"))) if n <= (8 if what != "atlas" else 6) else c
            rec.check(abs(c - h) < tol, "count %s is not the Hafnian %s of the adjacency matrix", c, h)
        if n <= 10 and len(edges) <= 20:
            ms = ff.find_perfect_matchings_brute(G)
            tot = sum(math.prod(G.edges[e].get("weight", 1) for e in m) for m in ms)
            rec.trace()
            rec.check(abs(c - tot) < tol, "count %s, listed matchings weigh %s", c, tot)
        if what == "atlas" and n <= 5:  # disjoint union with an edge, and with a single vertex
            U = nx.disjoint_union(G, nx.path_graph(2))
            rec.check(abs(self.count(U) - c) < tol, "a separate edge changes the count")
            rec.check(abs(self.count(nx.disjoint_union(G, nx.empty_graph(1)))) < tol, "an isolated vertex is matched")
            rec.trace(2)
        rec.outcome((round(c.real, 6), n))


class DistanceRelations(Space):
    rule = ("state = pair of states; transition = dephasing, tracing out a factor, mixing, permuting the outcomes; "
            "trace = one inequality or identity between measures of the package")

    def bounds(self, tier):
        return ("all ordered pairs of lattice distributions with 2..4 outcomes (N <= %d), and of ones with entries 1e-5..1; all ordered pairs of %d "
                "two-qubit states" % (4 if tier == "quick" else 6, 36 if tier == "quick" else 60))

    def shards(self, tier):
        return [["p", k, r] for k in (4, 3, 2) for r in range(4)] + [["q", 0, r] for r in range(8)]

    def cases(self, shard, tier):
        what, k, r = shard
        if what == "p":
            N = 4 if tier == "quick" else 6
            L = list(ref.compositions(N, k))
            for i, p in enumerate(L):
                if i % 4 == r:
                    for q in L:
                        yield ["p", list(p), list(q), N]
            S = [c for c in itertools.product((0, 1, 20, 700), repeat=k - 1)][r::4]
            T = [c for c in itertools.product((0, 2, 30, 900), repeat=k - 1)]
            for p in S:  # outcomes of very different weight
                for q in T if k < 4 else T[::5]:
                    yield ["p", [*p, 10**5 - sum(p)], [*q, 10**5 - sum(q)], 10**5]
        else:
            m = 36 if tier == "quick" else 60
            for i in range(m):
                if i % 8 == r:
                    for j in range(m):
                        yield ["q", i, j]

    @staticmethod
    def two_qubit(i):
        U = ref.unitary(i, 4)
        kind = i % 6
        if kind == 0:
            p = [1, 0, 0, 0]
        elif kind == 1:
            p = [0.5, 0.5, 0, 0]
        elif kind == 2:
            p = [0.4, 0.3, 0.2, 0.1]
        elif kind == 3:
            U, p = np.eye(4), np.roll([0.7, 0.3, 0, 0], i)
        elif kind == 4:
            U = np.kron(ref.unitary(i, 2), ref.unitary(i + 1, 2))
            p = [1, 0, 0, 0]
        else:
            v = np.zeros(4)
            v[i % 4], v[(i + 1 + i // 4) % 4] = 0.6, 0.8
            return np.outer(v, v) / (v @ v) + 0j
        rho = (U * np.array(p)) @ U.conj().T
        return (rho + rho.conj().T) / 2

    def classical(self, a, b, rec):
        tv, bc = ff.total_variation_distance(a, b), ff.bhattacharyya_coeff(a, b)
        js, kl = ff.jensen_shannon_divergence(a, b), ff.relative_entropy(a, b)
        rec.trace(4)
        rec.check(-1e-9 <= tv <= 1 + 1e-9 and -1e-9 <= bc <= 1 + 1e-9, "outside [0, 1]: TV %s, BC %s", tv, bc)
        rec.check(-1e-9 <= js <= math.log(2) + 1e-9 and kl >= -1e-9, "outside range: JS %s, KL %s", js, kl)
        rec.check(1 - bc <= tv + 1e-9 and tv <= math.sqrt(max(0, 1 - bc * bc)) + 1e-6,
                  "total variation %s against Bhattacharyya %s", tv, bc)
        rec.check(kl >= 2 * tv * tv - 1e-9, "Pinsker: KL %s, TV %s", kl, tv)
        rec.check(js <= math.log(2) * tv + 1e-9 and js >= tv * tv / 2 - 1e-9, "JS %s against TV %s", js, tv)
        if kl < 30:
            rec.check(kl >= -2 * math.log(max(bc, 1e-300)) - 1e-7, "KL %s against BC %s", kl, bc)
        x, y = ff.cast_to_pdf(a), ff.cast_to_pdf(b)
        m = (x + y) / 2
        rec.check(abs(js - ff.renyi_entropy(np.diag(m), 1) + (ff.renyi_entropy(np.diag(x), 1)
                                                               + ff.renyi_entropy(np.diag(y), 1)) / 2) < 1e-9,
                  "JS is not the entropy gap of the average")
        rec.check(abs(ff.total_variation_distance(np.diag(x), np.diag(m)) - tv / 2) < 1e-9, "mixing halves the distance")
        return tv, bc, js, kl

    def run(self, case, rec):
        rec.state(case)
        if case[0] == "p":
            p, q = (np.array(c) / case[3] for c in case[1:3])
            base = self.classical(p, q, rec)
            d = len(p)
            for perm in itertools.permutations(range(d)) if d < 4 else [(3, 0, 2, 1), (1, 0, 3, 2), (2, 3, 1, 0)]:
                P = ff.permutation_to_matrix(list(perm))
                rec.trans()
                new = self.classical(P @ p, P @ q, rec)
                rec.check(all(abs(x - y) < 1e-9 or x == y for x, y in zip(base, new)), "relabelling changes a measure")
            u = np.full(d, 1 / d)  # entropy is log d minus the relative entropy to the uniform distribution
            rec.check(abs(ff.renyi_entropy(p, 1) - math.log(d) + ff.relative_entropy(p, u)) < 1e-9, "entropy deficit")
            if math.isqrt(d) ** 2 == d:
                rec.check(abs(1 - ff.linear_entropy(p) - math.exp(-ff.renyi_entropy(p, 2))) < 1e-9,
                          "linear and collision entropies disagree")
            rec.outcome(tuple(round(float(x), 6) for x in base))
            return
        A, B = self.two_qubit(case[1]), self.two_qubit(case[2])
        t = ff.trace_distance(A, B)
        rec.trace(6)
        rec.check(-1e-9 <= t <= 1 + 1e-9, "trace distance %s", t)
        tv = self.classical(A, B, rec)[0]
        rec.check(tv <= t + 1e-9, "dephasing increases the distance")
        rec.trans(4)
        rec.check(abs(ff.trace_distance(np.diag(np.diag(A)), np.diag(np.diag(B))) - tv) < 1e-9,
                  "dephased states: total variation")
        for f in (ff.partial_trace_over_1, ff.partial_trace_over_2):
            a, b = f(A, 2), f(B, 2)
            rec.check(ff.trace_distance(a, b) <= t + 1e-9, "a partial trace increases the distance")
            rec.check(abs(np.trace(a) - 1) < 1e-9 and np.linalg.eigvalsh(a).min() > -1e-9, "reduced state invalid")
            rec.check(ff.total_variation_distance(a, b) <= tv + 1e-9, "coarse-graining increases the distance")
        M = (A + B) / 2
        rec.check(abs(ff.trace_distance(A, M) - t / 2) < 1e-9, "mixing halves the distance")
        W = ff.random_FF_rotation(2, seed=case[1])
        a, b = W @ A @ W.conj().T, W @ B @ W.conj().T
        rec.check(abs(ff.trace_distance((a + a.conj().T) / 2, (b + b.conj().T) / 2) - t) < 1e-8,
                  "a free-fermion rotation changes the distance")
        rec.check(abs(ff.FAF((a + a.conj().T) / 2) - ff.FAF(A)) < 1e-7, "a free-fermion rotation changes anti-flatness")
        rec.check(bool(ff.is_matchgate(W)), "a two-site rotation is not a matchgate")
        rec.outcome((round(float(t), 6), round(float(tv), 6)))
