"""No hidden state: results depend on arguments alone, in every call history; plotting helpers."""

import copy
import itertools
import math
import os
import pickle
import random
import sys

import matplotlib.pyplot as plt
import networkx as nx
import numpy as np

import ff
from mc import ref
from mc.engine import Quiet, Space


def graph(k):
    G = nx.Graph()
    if k == 0:
        G = nx.cycle_graph(4)
    elif k == 1:
        G = nx.grid_2d_graph(2, 3)
        G = nx.convert_node_labels_to_integers(G)
    else:
        G = nx.complete_graph(4)
        for i, (u, v) in enumerate(G.edges):
            G[u][v]["weight"] = i + 1
    return G


def k33(w):
    G = nx.complete_bipartite_graph(3, 3)
    if w:
        for i, (u, v) in enumerate(G.edges):
            G[u][v]["weight"] = 1 + i % 3
    return G


def rho(n, s):
    U = ref.unitary(s, 2**n)
    p = np.arange(1, 2**n + 1.0)
    r = (U * (p / p.sum())) @ U.conj().T
    return (r + r.conj().T) / 2


def noise(d, s):
    """Rounding-sized noise that any in-place symmetrisation, rescaling or clipping would change."""
    return 1e-11 * ref.dense(s + 2, (d, d))


def psi(n, s):
    return ref.unitary(s, 2**n)[:, :1]


def H(n, s):
    return ref.coeff_H(ref.herm(s, n), ref.anti(s, n))


def V(n, s):
    a, z = ref.dense(s, (n, n), "real"), ref.dense(s + 3, (n, n), "real")
    return ref.coeff_V(a - a.T, z - z.T)


def skew(n, s):
    a = ref.dense(s, (n, n))
    return a - a.T


def pdf(n, s):
    p = np.abs(ref.dense(s, (n,), "real")) + 0.1
    return p / p.sum()


def frozen(a):
    b = a.copy()
    b.setflags(write=False)
    return b


# other forms of an array argument: (name, transformation)
FORMS = [
    ("float32", lambda a: a.astype({"c": np.complex64, "f": np.float32}.get(a.dtype.kind, a.dtype))),
    ("Fortran", np.asfortranarray),
    ("strided", lambda a: np.repeat(a, 2, axis=-1)[..., ::2]),
    ("reversed", lambda a: np.ascontiguousarray(a[::-1])[::-1]),
    ("frozen", frozen),
    ("integer", lambda a: np.round(a.real).astype(int)),
    ("int8", lambda a: np.round(a.real).astype(np.int8)),
    ("real", lambda a: a.real.copy()),
    ("real32", lambda a: a.real.astype(np.float32)),
    ("complex", lambda a: a.astype(complex)),
    ("imaginary noise", lambda a: a + 1e-13j),
    ("tiny", lambda a: a * 1e-9),
    ("large", lambda a: a * 1e6),
]


def reform(x, f):
    if isinstance(x, np.ndarray):
        return f(x)
    if isinstance(x, (list, tuple)):
        return type(x)(reform(y, f) for y in x)
    return x


def path_points(p):
    return [p(t) for t in (0, 0.3, 1)]


def dual(k):
    G = graph(k)
    F = ff.faces(G)
    T = nx.Graph(nx.minimum_spanning_tree(G))
    return G, F, T


AL = ff.jordan_wigner_alphas
# name -> (function, [argument tuples built on demand])
CALLS = {
    "sgn": (ff.sgn, lambda s: ([[2, 0, 1], [0, 2, 1]][s],)),
    "pf": (ff.pf, lambda s: (skew(4, s),)),
    "hf": (ff.hf, lambda s: (skew(4, s) + 1,)),
    "pt": (ff.pt, lambda s: (ref.dense(s, (3, 3)),)),
    "dt": (ff.dt, lambda s: (ref.dense(s, (3, 3)),)),
    "dt_eigen": (ff.dt_eigen, lambda s: (ref.dense(s, (3, 3)),)),
    "pf int": (ff.pf, lambda s: (np.triu(np.arange(16).reshape(4, 4) + s, 1)
                                 - np.triu(np.arange(16).reshape(4, 4) + s, 1).T,)),
    "perm": (ff.permutation_to_matrix, lambda s: ([[1, 0, 2], [2, 0, 1]][s],)),
    "perm bad": (ff.permutation_to_matrix, lambda s: ([[1, 1, 2], [0, 3, 1]][s],)),
    "pauli": (ff.pauli_matrices, lambda s: ()),
    "pauli group": (ff.generate_pauli_group, lambda s: (1 + s,)),
    "pauli group verbose": (lambda n: ff.generate_pauli_group(n, verbose=True), lambda s: (1 + s,)),
    "pauli group bad": (ff.generate_pauli_group, lambda s: ([0, "2"][s],)),
    "lowering": (ff.jordan_wigner_lowering, lambda s: (2 + s,)),
    "alphas": (ff.jordan_wigner_alphas, lambda s: (2 + s,)),
    "majoranas": (ff.jordan_wigner_majoranas, lambda s: (2 + s,)),
    "rotate": (ff.rotate_operators, lambda s: (ref.dense(s, (4, 4)), AL(2))),
    "rotate left": (lambda C, a: ff.rotate_operators(C, a, Left=True, verbose=True),
                    lambda s: (ref.dense(s, (4, 4)), AL(2))),
    "rotate tensor": (ff.rotate_operators, lambda s: (ref.symplectic(s, 2), np.array(AL(2)))),
    "build_V": (ff.build_V, lambda s: (2, ref.dense(s, (2, 2)), ref.dense(s + 1, (2, 2)))),
    "build_V none": (ff.build_V, lambda s: (2, ref.dense(s, (2, 2)))),
    "build_H": (ff.build_H, lambda s: (2, ref.herm(s, 2), ref.anti(s, 2))),
    "build_H none": (ff.build_H, lambda s: (2, ref.herm(s, 2))),
    "kitaev": (ff.kitaev_chain, lambda s: (3, 0.5 + s, 1.0, 0.25)),
    "omega": (ff.build_Omega, lambda s: (2 + s,)),
    "reorder": (ff.build_reordering_xx_to_xp, lambda s: (2 + s,)),
    "K": (ff.build_K, lambda s: (2 + s,)),
    "is_symp": (ff.is_symp, lambda s: ([ref.symplectic(1, 2), np.eye(4) * 2][s],)),
    "canonical": (ff.check_canonical_form, lambda s: ([np.diag([-1., -2, 1, 2]), np.diag([1., 2, 3, 4])][s],)),
    "gaussian": (ff.generate_gaussian_state, lambda s: (3, H(3, s))),
    "gaussian op": (ff.generate_gaussian_state, lambda s: (3, ref.quad(H(3, s), ref.alphas(3)))),
    "gaussian alphas": (ff.generate_gaussian_state, lambda s: (2, H(2, s), AL(2))),
    "build_op": (ff.build_op, lambda s: (2, ref.dense(s, (4, 4)), AL(2))),
    "build_op direct": (lambda n, R, a: ff.build_op(n, R, a, verbose=True, direct=True),
                        lambda s: (2, ref.dense(s, (4, 4)), AL(2))),
    "cov": (ff.compute_cov_matrix, lambda s: (rho(2, s), 2)),
    "cov infer": (ff.compute_cov_matrix, lambda s: (psi(2, s),)),
    "corr": (ff.correlation_matrix, lambda s: (rho(2, s),)),
    "2corr": (ff.compute_2corr_matrix, lambda s: (rho(2, s), 2, AL(2))),
    "2corr conj": (ff.compute_2corr_matrix, lambda s: (rho(2, s), 2, None, "T")),
    "S": (ff.compute_algebra_S, lambda s: (ff.rotate_operators(ref.dense(s, (4, 4)), AL(2)),)),
    "matchgate": (ff.is_matchgate, lambda s: ([np.eye(4), np.ones((4, 4)) / 2][s],)),
    "eigh_sp": (ff.eigh_sp, lambda s: (H(2, s),)),
    "eigh_sp 3": (ff.eigh_sp, lambda s: (H(3, s),)),
    "eigv_sp": (ff.eigv_sp, lambda s: (V(2, s),)),
    "eigm_sp_can": (ff.eigm_sp_can, lambda s: (H(2, s),)),
    "eigm_sp": (ff.eigm_sp, lambda s: (H(2, s),)),
    "stab": (ff.stabilizer_distribution, lambda s: (psi(2, s),)),
    "stab rho": (ff.stabilizer_distribution, lambda s: (rho(2, s),)),
    "SRE": (ff.SRE, lambda s: (psi(2, s),)),
    "SRE a": (ff.SRE, lambda s: (rho(2, s), [1, 3][s])),
    "renyi": (ff.renyi_entropy, lambda s: (pdf(4, s), 2)),
    "renyi a": (ff.renyi_entropy, lambda s: (pdf(4, 0), [1, 0.5][s])),
    "linear": (ff.linear_entropy, lambda s: (rho(2, s),)),
    "covdist": (ff.cov_distribution, lambda s: (psi(2, s),)),
    "FAF": (ff.FAF, lambda s: (psi(2, s),)),
    "FAF k": (ff.FAF, lambda s: (rho(2, 1), 1 + s)),
    "tvd": (ff.total_variation_distance, lambda s: (pdf(4, s), pdf(4, s + 5))),
    "tvd rho": (ff.total_variation_distance, lambda s: (rho(2, s), rho(2, s + 5))),
    "trace dist": (ff.trace_distance, lambda s: (rho(2, s), rho(2, s + 5))),
    "rel": (ff.relative_entropy, lambda s: (pdf(4, s), pdf(4, s + 5))),
    "bhat": (ff.bhattacharyya_coeff, lambda s: (pdf(4, s), pdf(4, s + 5))),
    "jsd": (ff.jensen_shannon_divergence, lambda s: (pdf(4, s), pdf(4, s + 5))),
    "clean": (ff.clean, lambda s: (ref.dense(s, (3, 3)) * 1e-6,)),
    "clean list": (ff.clean, lambda s: ([1e-9, 2 + 1e-8j * s, [3, 1e-12]],)),
    "clean thr": (ff.clean, lambda s: (ref.dense(s, (3, 3)), 1e-1)),
    "fmt": (ff.formatted_output, lambda s: ([1 / 3, 2 + 1j][s],)),
    "print": (ff.print_custom, lambda s: (ref.dense(s, (2, 2)), 3 + s)),
    "print list": (ff.print_custom, lambda s: ([[1e-12, 2], "text"][s],)),
    "bits bad": (ff.generate_random_bitstring, lambda s: (3, [4, -1][s])),
    "kron_plus": (ff.kron_plus, lambda s: (ref.dense(s, (2, 2)), ref.dense(s, (3, 2)))),
    "to pdf": (ff.cast_to_pdf, lambda s: (rho(2, s),)),
    "to rho": (ff.cast_to_density_matrix, lambda s: (psi(2, s),)),
    "to rho id": (ff.cast_to_density_matrix, lambda s: (rho(2, s),)),
    "to rho bad": (ff.cast_to_density_matrix, lambda s: ([np.ones(3), np.eye(2)][s],)),
    "tr1": (ff.partial_trace_over_1, lambda s: (ref.dense(s, (6, 6)), 2)),
    "tr2": (ff.partial_trace_over_2, lambda s: (ref.dense(s, (6, 6)), 2)),
    "tr bad": (ff.partial_trace_over_1, lambda s: (ref.dense(s, (5, 5)), 2)),
    "ortho": (ff.get_orthogonal_vectors, lambda s: (ref.dense(s, (3, 1)),)),
    "upath": (lambda w, v: path_points(ff.build_unitary_path(w, v)),
              lambda s: (ref.dense(s, (3, 1)), ref.dense(s + 4, (3, 1)))),
    "lpath": (lambda w, v: path_points(ff.build_linear_path(w, v)),
              lambda s: (ref.dense(s, (3, 1)), ref.dense(s + 4, (3, 1)))),
    "dual": (ff.dual_graph_H, dual),
    "faces": (ff.faces, lambda s: (graph(s),)),
    "faces emb": (ff.faces, lambda s: (graph(s), nx.check_planarity(graph(s))[1])),
    "count": (ff.count_perfect_matchings, lambda s: (graph(2 * s),)),
    "count nonplanar": (ff.count_perfect_matchings, lambda s: (k33(s),)),
    "count planar": (ff.count_perfect_matchings_planar, lambda s: (graph(1 + s),)),
    "brute": (ff.find_perfect_matchings_brute, lambda s: (graph(s),)),
    "pfo": (ff.pfo_algorithm, lambda s: (graph(1 + s),)),
    "pfo verbose": (lambda G: ff.pfo_algorithm(G, verbose=True), lambda s: (graph(1 + s),)),
    "S real": (ff.compute_algebra_S, lambda s: ([x.real * (1 + s) for x in AL(2)],)),
    "dt int": (ff.dt, lambda s: (np.arange(9).reshape(3, 3) ** 2 + s,)),
    "rotate int": (ff.rotate_operators, lambda s: (np.arange(16).reshape(4, 4) - s, AL(2))),
    "build_op real": (ff.build_op, lambda s: (2, ref.dense(s, (4, 4), "real"), [x.real for x in AL(2)])),
    "build_H real": (ff.build_H, lambda s: (2, np.eye(2) + s, np.zeros((2, 2)))),
    "cov real": (ff.compute_cov_matrix, lambda s: (rho(2, s).real, 2)),
    "eigh_sp real": (ff.eigh_sp, lambda s: (ref.coeff_H(ref.herm(s, 2).real, ref.anti(s, 2).real),)),
    "stab real": (ff.stabilizer_distribution, lambda s: (np.diag(pdf(4, s)),)),
    "to rho noise": (ff.cast_to_density_matrix, lambda s: (rho(2, s) + noise(4, s),)),
    "to pdf noise": (ff.cast_to_pdf, lambda s: (rho(2, s) + noise(4, s),)),
    "trace dist noise": (ff.trace_distance, lambda s: (rho(2, s) + noise(4, s), rho(2, s + 5) + noise(4, 1))),
    "SRE noise": (ff.SRE, lambda s: (rho(2, s) + noise(4, s),)),
    "covdist noise": (ff.cov_distribution, lambda s: (rho(2, s) + noise(4, s),)),
    "tr1 real": (ff.partial_trace_over_1, lambda s: (ref.dense(s, (6, 6), "real"), 2)),
    "tr2 real": (ff.partial_trace_over_2, lambda s: (ref.dense(s, (6, 6), "real"), 2)),
    "ortho real": (ff.get_orthogonal_vectors, lambda s: (ref.dense(s, (3, 1), "real"),)),
    "kron_plus int": (ff.kron_plus, lambda s: (np.eye(2, dtype=int) + s, np.eye(3, dtype=int))),
    "depth": (ff.compute_tree_depth, lambda s: (nx.path_graph(4 + s),)),
}
# these consume random numbers: results are fixed by the seed, the generator may advance
SEEDED = {
    "rnd rotation": (lambda s: ff.random_FF_rotation(2, seed=s), lambda s: (s,)),
    "rnd generator": (lambda s: ff.random_H_generator(2, seed=s), lambda s: (s,)),
    "rnd state": (lambda s: ff.random_FF_state(2, seed=s, returnH=True), lambda s: (s,)),
    "rnd pure": (lambda s: ff.random_FF_state(2, seed=s, pure=True), lambda s: (s,)),
    "rnd randH": (lambda s: ff.random_FF_state_randH(2, seed=s), lambda s: (s,)),
    "rnd rotPDF": (lambda s: ff.random_FF_state_rotPDF(2, seed=s), lambda s: (s,)),
    "rnd W0": (lambda s: ff.random_FF_pure_state_W0(2, seed=s), lambda s: (s,)),
    "rnd WN": (lambda s: ff.random_FF_pure_state_WN(2, seed=s), lambda s: (s,)),
    "rnd CN": (lambda s: ff.random_FF_pure_state_CN(2, seed=s), lambda s: (s,)),
    "rnd qubit": (lambda s: ff.random_qubit_pure_state(2, seed=s), lambda s: (s,)),
    "rnd planar": (lambda s: ff.generate_random_planar_graph(6, seed=s), lambda s: (s,)),
}
ALL = dict(CALLS, **SEEDED)
NAMES = list(ALL)
OPS = [(k, s) for k in NAMES for s in (0, 1)]


def norm(x):
    """Plain data for comparison."""
    if isinstance(x, nx.Graph):
        return ("graph", type(x).__name__, [(repr(u), sorted(map(repr, d.items()))) for u, d in x.nodes(data=True)],
                [(repr(u), repr(v), sorted(map(repr, d.items()))) for u, v, d in x.edges(data=True)],
                sorted((repr(k), repr(v)) for k, v in x.graph.items()))
    if isinstance(x, nx.PlanarEmbedding):
        return ("emb", {repr(u): [repr(v) for v in x.neighbors_cw_order(u)] for u in x})
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, [norm(y) for y in x])
    if isinstance(x, dict):
        return ("dict", [(norm(k), norm(v)) for k, v in x.items()])
    if isinstance(x, (set, frozenset)):
        return ("set", sorted(map(repr, x)))
    if isinstance(x, np.ndarray):
        return ("array", type(x).__name__, x.dtype.str, x.copy())
    return ("obj", type(x).__name__, x)


def same(a, b, exact=False):
    if isinstance(a, (list, tuple)):
        return type(a) is type(b) and len(a) == len(b) and all(same(x, y, exact) for x, y in zip(a, b))
    if isinstance(a, dict):
        return isinstance(b, dict) and a.keys() == b.keys() and all(same(a[k], b[k], exact) for k in a)
    if isinstance(a, np.ndarray):
        if not isinstance(b, np.ndarray) or a.shape != b.shape:
            return False
        if exact or a.dtype.kind not in "fc":
            return a.tobytes() == b.tobytes() if a.dtype != object else bool((a == b).all())
        return a.size == 0 or bool(np.all((np.abs(a - b) <= 1e-9 * (1 + np.abs(a))) | (np.isnan(a) & np.isnan(b))))
    if isinstance(a, (float, complex)) and isinstance(b, (float, complex)) and not exact:
        return a == b or (a != a and b != b) or abs(a - b) <= 1e-9 * (1 + abs(a))
    return type(a) is type(b) and (a == b or a != a)


def scribble(x, mode=0):
    """Overwrite whatever can be overwritten in a result or an argument; lists also grow (mode 0),
    keep their elements (1) or are reversed (2)."""
    if isinstance(x, np.ndarray):
        if x.flags.writeable and x.dtype.kind in "ifc":
            x += 3
            x *= 2
    elif isinstance(x, nx.Graph):
        if not nx.is_frozen(x) and not isinstance(x, nx.PlanarEmbedding):
            x.add_edge("scribble", "scribble2", weight=9)
    elif isinstance(x, list):
        for y in x:
            scribble(y, mode)
        if mode == 0:
            x.append(None)
        elif mode == 2:
            x.reverse()
    elif isinstance(x, tuple):
        for y in x:
            scribble(y, mode)
    elif isinstance(x, dict):
        x["scribble"] = 1


class Tee(Quiet):
    def __init__(self):
        self.buf = []

    def write(self, s):
        self.buf.append(s)
        return len(s)


def invoke(op, args=None):
    """Run one call; return (plain result incl. printed text, raw result, args)."""
    f, mk = ALL[op[0]]
    if args is None:
        args = mk(op[1])
    keep, sys.stdout = sys.stdout, Tee()
    raw = None
    try:
        raw = f(*args)
        res = ("ok", norm(raw))
    except Exception as e:
        res = ("raised", type(e).__name__, str(e))
    finally:
        text = "".join(sys.stdout.buf)
        sys.stdout = keep
    return (res, text), raw, args


def ambient():
    st = np.random.get_state()
    po = np.get_printoptions()
    return dict(numpy=(st[0], st[1].tobytes()) + tuple(st[2:]), py=random.getstate(), err=np.geterr(),
                prt={k: repr(v) for k, v in po.items()}, cwd=os.getcwd(), out=id(sys.stdout))


def fork_value(fn):
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            with os.fdopen(w, "wb") as f:
                pickle.dump(fn(), f)
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r, "rb") as f:
        data = f.read()
    os.waitpid(pid, 0)
    return pickle.loads(data)


SLOW = "pfo verbose"  # draws the embedding; paired with a tenth of the calls in the quick tier


class Purity(Space):
    rule = ("state = (call, preceding history); transition = one call of a history; trace = one result "
            "compared with the same call in a process that has called nothing else, with arguments and "
            "ambient state compared before and after")
    assumptions = ["equality up to 1e-9 relative on floating-point entries"]

    def bounds(self, tier):
        return "%d calls; every history f; g with results and arguments of f overwritten in between%s; " \
               "every f; f' on one reused buffer; every f; f; f; %d other types and layouts of the arguments of every f%s" % (
                   len(OPS),
                   " (the slow drawing call with a tenth of the others)" if tier == "quick" else "", len(FORMS),
                   "" if tier == "quick" else "; every f; g; f'")

    base = None

    def prepare(self):
        if self.base is None:
            self.base = {}
            for op in OPS:
                self.base[op] = fork_value(lambda: self.fresh(op))

    def fresh(self, op):
        sys.stdout = Quiet()
        np.random.seed(5)
        return invoke(op)[0]

    def shards(self, tier):
        self.prepare()
        return [["pair", k, s] for k, s in OPS] + [["reuse", 0, 0], ["self", 0, 0], ["form", 0, 0]]

    def cases(self, shard, tier):
        kind, k, s = shard
        if kind == "reuse":
            for name in CALLS:
                yield ["reuse", name]
        elif kind == "self":
            for op in OPS:
                yield ["self", list(op)]
        elif kind == "form":
            for name in CALLS:
                for s in (0, 1):
                    if any(isinstance(x, (np.ndarray, list)) for x in CALLS[name][1](s)):
                        for i in range(len(FORMS)):
                            yield ["form", [name, s], i]
        else:
            for g in OPS:
                if SLOW in (k, g[0]) and tier == "quick" and (OPS.index((k, s)) + OPS.index(g)) % 10:
                    continue
                yield ["pair", [k, s], list(g)]
            if tier != "quick":
                for g in NAMES:
                    yield ["pair", [k, s], [g, 0], [k, 1 - s]]

    def call(self, rec, op, args=None):
        op = tuple(op)
        if args is None:
            args = ALL[op[0]][1](op[1])
        before = norm(args)
        amb = ambient()
        got, raw, args = invoke(op, args)
        rec.trans()
        rec.trace()
        rec.check(same(norm(args), before, exact=True), "%s changes its arguments", op[0])
        if op[0] in CALLS:
            now = ambient()
            bad = [k for k in amb if amb[k] != now[k]]
            rec.check(not bad, "%s changes ambient state: %s", op[0], bad)
        want = self.base[op]
        rec.check(same(got[0], want[0]), "%s: the result depends on earlier calls: %.200s, alone %.200s",
                  op, got[0], want[0])
        if op[0] in ("print", "print list"):
            rec.check(got[1] == want[1], "%s: the output depends on earlier calls", op)
        return raw, args

    def run(self, case, rec):
        self.prepare()
        rec.state(case)
        if case[0] == "reuse":
            # the same argument objects with new contents are a new question
            mk = ALL[case[1]][1]
            a, b = mk(0), mk(1)
            if len(a) == len(b) and len(a) and type(a[0]) is nx.Graph is type(b[0]) and not nx.is_frozen(a[0]):
                # one graph object, edited in place: its vertices and edges are replaced
                invoke((case[1], 0), a)
                g, h = a[0], b[0]
                g.remove_nodes_from(list(g))
                g.add_nodes_from(h.nodes(data=True))
                g.add_edges_from(h.edges(data=True))
                got, _, _ = invoke((case[1], 1), (g,) + tuple(b[1:]))
                rec.trace()
                rec.trans(2)
                rec.check(same(got[0], self.base[case[1], 1][0]), "%s: a graph edited in place gives a stale result", case[1])
                return
            if len(a) != len(b) or not all(
                    isinstance(x, np.ndarray) and isinstance(y, np.ndarray) and x.shape == y.shape
                    and np.can_cast(y.dtype, x.dtype) or same(norm(x), norm(y), True) for x, y in zip(a, b)):
                return
            invoke((case[1], 0), a)
            for x, y in zip(a, b):
                if isinstance(x, np.ndarray):
                    x[...] = y
            got, _, _ = invoke((case[1], 1), a)
            rec.trace()
            rec.trans(2)
            rec.check(same(got[0], self.base[case[1], 1][0]) or
                      not all(x.dtype == y.dtype for x, y in zip(a, b) if isinstance(x, np.ndarray)),
                      "%s: a reused argument object gives a stale result", case[1])
            return
        if case[0] == "form":
            # other types and layouts of the arguments: unchanged by the call, and the same answer again
            op, (name, f) = tuple(case[1]), FORMS[case[2]]
            args = reform(CALLS[op[0]][1](op[1]), f)
            before, amb = norm(args), ambient()
            got, raw, _ = invoke(op, args)
            rec.trace(2)
            rec.trans()
            rec.check(same(norm(args), before, exact=True), "%s changes its arguments (%s)", op[0], name)
            now = ambient()
            bad = [k for k in amb if amb[k] != now[k]]
            rec.check(not bad, "%s changes ambient state: %s (%s)", op[0], bad, name)
            first = copy.deepcopy(got[0])
            scribble(raw, 1)
            if name in ("integer", "int8", "tiny", "large"):
                return  # possibly ill-conditioned: rounding may decide the result
            again = invoke(op, reform(CALLS[op[0]][1](op[1]), f))[0]
            rec.check(same(again[0], first), "%s: another result at the second call (%s)", op[0], name)
            rec.outcome((op, name, got[0][0]))
            return
        if case[0] == "self":
            # argument objects used again unchanged give the same answer again
            op = tuple(case[1])
            if op[0] in CALLS:
                raw, args = self.call(rec, op)
                self.call(rec, op, args)
                self.call(rec, op)
            return
        ops = [tuple(op) for op in case[1:]]
        where = sum(OPS.index(op) if op in OPS else 0 for op in ops)
        for mode in range(3) if len({name for name, _ in ops}) == 1 else [where % 3]:
            for op in ops:
                raw, args = self.call(rec, op)
                scribble(raw, mode)
                scribble(list(args), mode)
        plt.close("all")
        rec.outcome((case[-1], repr(self.base[tuple(case[-1])][0])[:300]))


class Plots(Space):
    rule = ("state = (weight matrix or graph, call form); transition = one matrix entry; trace = one "
            "returned graph or drawn data set compared with the input")
    assumptions = ["matrices with zero diagonal; weights of a symmetric matrix are undirected"]

    V = [0, 1, -1, 0.5, 2.25, 1e-3, 100, 1 / 3, 3, -2.5, 2e-4, 6e-4]

    def bounds(self, tier):
        return ("3-vertex matrices over 3 values: all symmetric ones and every fourth other; every third symmetric "
                "4-vertex one over 3 values; distributions k/5 with 2..4 outcomes" if tier == "quick" else
                "all 3-vertex matrices over 5 values, all symmetric 4-vertex ones over 3; distributions k/5")

    def shards(self, tier):
        return [["m3", r] for r in range(16)] + [["s4", r] for r in range(8)] + [["nx", 0], ["pdf", 0]] + [
            ["emb", n] for n in range(2, 6)]

    def cases(self, shard, tier):
        kind, r = shard
        if kind == "m3":
            for i, v in enumerate(itertools.product(range(3 if tier == "quick" else 5), repeat=6)):
                if i % 16 == r and (tier != "quick" or i % 4 == 0 or v[:3] == v[3:]):
                    yield ["m3", list(v)]
            if r == 0:  # symmetric up to the signs
                for v in itertools.product((0, 3, 4, 5, 6), repeat=3):
                    w = [{3: 5, 5: 3, 4: 6, 6: 4, 0: 0}[k] for k in v]
                    yield ["m3", [v[0], v[1], w[0], v[2], w[1], w[2]]]
        elif kind == "s4":
            for i, v in enumerate(itertools.product((0, 2, 7), repeat=6)):
                if i % 8 == r and (tier != "quick" or i % 3 == 0):
                    yield ["s4", list(v)]
            for i, v in enumerate(itertools.product((0, 10, 11), repeat=6)):
                if i % 8 == r and (tier != "quick" or i % 5 == 0):
                    yield ["s4", list(v)]
        elif kind == "nx":
            for n in range(1, 6):
                for k in range(4):
                    yield ["nx", n, k]
        elif kind == "emb":
            for k in range(5):
                m = self.planar(r, k).number_of_edges()
                for i, v in enumerate(itertools.product((1, -1, 0), repeat=m)):
                    if m <= 3 or i % (5 if m == 4 else 41) == k or tier != "quick" and m < 6:
                        yield ["emb", r, k, list(v), i % 3]
        else:
            for d in (2, 3, 4):
                for c in ref.compositions(5, d):
                    for stem in (0, 1):
                        yield ["pdf", list(c), stem]

    def matrix(self, case):
        kind = case[0]
        n = 3 if kind == "m3" else 4
        A = np.zeros((n, n))
        if kind == "m3":
            for (i, j), k in zip(itertools.permutations(range(3), 2), case[1]):
                A[i, j] = (0, -1, 1 / 3, 1, 2.25, -1, -2.25)[k]
        else:
            for (i, j), k in zip(itertools.combinations(range(4), 2), case[1]):
                A[i, j] = A[j, i] = self.V[k]
        return A

    @staticmethod
    def planar(n, k):
        return [nx.path_graph, nx.cycle_graph, nx.star_graph, nx.wheel_graph, nx.complete_graph][k](
            n - (k == 2) if k < 3 else min(n, 4))

    @staticmethod
    def drawn(ax):
        """Vertex positions, red edges (as pairs of vertices, directed if drawn as arrows) and texts of a drawing."""
        import matplotlib.colors as mc

        pos = [np.asarray(c.get_offsets()) for c in ax.collections if not hasattr(c, "get_segments")][-1]

        def vertex(p):
            return int(np.argmin(np.abs(pos - np.asarray(p, dtype=float)).sum(axis=1)))
        red = []
        for c in ax.collections:
            if hasattr(c, "get_segments"):
                for sg, col in zip(c.get_segments(), itertools.cycle(c.get_edgecolor())):
                    if mc.to_hex(col) == mc.to_hex("red"):
                        red.append(tuple(sorted((vertex(sg[0]), vertex(sg[-1])))))
        for a in ax.patches:
            if hasattr(a, "get_arrowstyle") and mc.to_hex(a.get_edgecolor()) == mc.to_hex("red"):
                red.append(tuple(vertex(p) for p in a._posA_posB))
        return pos, sorted(red), sorted(t.get_text() for t in ax.texts if t.get_text())

    def embedding(self, case, rec, plt):
        """Every oriented edge, and no other, is drawn as an arrow in its direction."""
        n, k, v, form = case[1:]
        G = self.planar(n, k)
        if form == 2:  # vertices drawn in another order
            H = nx.Graph()
            H.add_nodes_from(sorted(G, reverse=True))
            H.add_edges_from((y, x) for x, y in G.edges)
            G = H
        pfo = np.zeros((len(G), len(G)))
        want = []
        for (x, y), o in zip(sorted(tuple(sorted(e)) for e in G.edges), v):
            pfo[x, y], pfo[y, x] = o, (-o, o, 0, 2)[(len(want) + form + k) % 4]  # only the upper triangle counts
            if o:
                want.append((x, y) if o < 0 else (y, x))
            rec.trans()
        keep = pfo.copy()
        ff.plot_planar_embedding(G, pfo if form else pfo * 7, title="T" if form else None)
        rec.check((pfo == keep).all(), "orientation modified")
        ax = plt.gca()
        pos, red, texts = self.drawn(ax)
        names = list(G)
        got = sorted((names[x], names[y]) for x, y in red)
        rec.check(len(pos) == len(G), "vertices drawn: %d", len(pos))
        rec.check(got == sorted(want), "arrows %s, expected %s", got, sorted(want))
        rec.check(texts == sorted(str(x) for x in G), "labels %s", texts)
        rec.check(ax.get_title() == "T" if form else True, "title")
        rec.outcome(tuple(want))
        plt.close("all")
        ff.plot_planar_embedding(G)
        rec.check(self.drawn(plt.gca())[1] == [], "arrows without an orientation")

    def run(self, case, rec):
        import matplotlib.pyplot as plt

        rec.state(case)
        rec.trace()
        plt.close("all")
        try:
            if case[0] == "emb":
                self.embedding(case, rec, plt)
                return
            if case[0] == "pdf":
                self.pdf(case, rec, plt)
                return
            if case[0] == "nx":
                n, k = case[1:]
                src = [nx.path_graph(n), nx.complete_graph(n), nx.star_graph(n - 1),
                       nx.gn_graph(n, seed=1)][k]
                for i, (u, v) in enumerate(src.edges):
                    if k != 1:
                        src[u][v]["weight"] = 1 + i / 7
                A = nx.to_numpy_array(src)
            else:
                src = A = self.matrix(case)
                if np.array_equal(A, np.round(A)) and sum(case[1]) % 3:
                    src = A = A.astype([np.int8, int][sum(case[1]) % 3 - 1])
            keep = A.copy()
            n = len(A)
            matching = [(i, j) for i in range(n) for j in range(i + 1, n) if A[i, j]][::2] or None
            G = ff.plot_graph_with_edge_weights(src, matching=matching, title="t" if n % 2 else None)
            rec.check((A == keep).all(), "input changed")
            sym = np.allclose(A, A.T)
            rec.check(G.is_directed() != sym, "directedness")
            rec.check(sorted(G.nodes) == list(range(n)), "vertices %s", list(G.nodes))
            want = {}
            for i in range(n):
                for j in range(n):
                    rec.trans()
                    if A[i, j] != 0 and (not sym or i < j):
                        want[i, j] = A[i, j]
            got = {}
            for u, v, d in G.edges(data=True):
                e = (u, v) if not sym or u < v else (v, u)
                rec.check(e not in got, "edge twice")
                got[e] = d["weight"]
            rec.check(got.keys() == want.keys(), "edges %s, expected %s", sorted(got), sorted(want))
            rec.check(all(abs(got[e] - want[e]) < 5.1e-5 for e in want), "weights")
            pos, red, texts = self.drawn(plt.gca())
            rec.check(len(pos) == n, "vertices drawn: %d", len(pos))
            rec.check(red == sorted(matching or []), "highlighted %s, expected %s", red, matching)
            for x in [str(x) for x in range(n)] + [str(float(x)) for x in got.values()]:
                hit = [t for t in texts if t == x] or [t for t in texts if "." in t and float(t) == float(x)]
                rec.check(hit, "%s is not written in the drawing: %s", x, texts)
                texts.remove(hit[0])
            rec.check(not texts, "additional texts %s", texts)
            rec.check(plt.gca().get_title() == "t" if n % 2 else plt.gca().get_title() != "t", "title")
            rec.outcome(tuple(sorted(got.items())))
        finally:
            plt.close("all")

    def pdf(self, case, rec, plt):
        c, stem = case[1:]
        p = np.array(c) / 5
        d = len(p)
        form = sum(c[::2]) % 3
        U = ref.ortho(1, d)
        r = (U * p) @ U.T
        arg, r = [(r, r), (r.tolist(), r), (p, np.diag(p))][form]
        plt.figure()
        ff.analyze_pdf(arg, name="x", stem=bool(stem))
        ax = plt.gca()
        rec.trans()
        data = []
        for ln in ax.get_lines():
            y = np.asarray(ln.get_ydata(), dtype=complex).real
            if len(y) == d:
                rec.check(list(ln.get_xdata()) == list(range(d)), "abscissae %s", ln.get_xdata())
                data.append(y)
        want = [np.where(np.abs(x) < 1e-6, 0, x) for x in (np.diag(r), np.sort(p)[::-1])]
        for w, what in zip(want, ("populations", "spectrum in decreasing order")):
            hit = [k for k, y in enumerate(data) if ref.dist(y, w) < 1e-5]
            rec.check(hit, "%s not drawn: %s", what, data)
            del data[hit[0]]
        rec.check(d == 2 or not data, "additional data %s", data)  # a base line has two points
        rec.check(ax.get_yscale() == "log", "scale")
        rec.outcome(tuple(np.round(p, 3)))
