"""Perfect matchings, Pfaffian orientations, faces, duals, trees, random graphs."""

import itertools
import math
import random

import networkx as nx
import numpy as np

import ff
from mc import env, ref
from mc.engine import Space

WTS = [1, 2, 3, 0.5, 1.25, 10]


def pairs(n):
    return list(itertools.combinations(range(n), 2))


def from_mask(n, mask):
    G = nx.Graph()
    G.add_nodes_from(range(n))
    G.add_edges_from(p for k, p in enumerate(pairs(n)) if mask >> k & 1)
    return G


LABELS = {
    "int": lambda n: list(range(n)),
    "one": lambda n: list(range(1, n + 1)),
    "gap": lambda n: [3 * k - 4 for k in range(n)],
    "rev": lambda n: list(range(n))[::-1],
    "str": lambda n: ["v%03d" % ((5 * k) % 997) for k in range(n)],
    "tup": lambda n: [(k // 2, k % 2) for k in range(n)],
    "mix": lambda n: [k if k % 2 else "s%d" % k for k in range(n)],
}


def dress(G, label, order, weights):
    """Relabel, reorder insertion, and weight a graph on 0..n-1."""
    n = len(G)
    lab = LABELS[label](n)
    forest = n > 0 and nx.is_forest(G)
    nodes = list(range(n))
    edges = [tuple(sorted(e)) for e in G.edges]
    edges.sort()
    if order == 1:
        nodes, edges = nodes[::-1], [(v, u) for u, v in edges[::-1]]
    elif order == 2:
        nodes = nodes[1::2] + nodes[::2]
        edges = [(v, u) if k % 2 else (u, v) for k, (u, v) in enumerate(edges[1::2] + edges[::2])]
    H = nx.Graph()
    if order != 3:
        H.add_nodes_from(lab[v] for v in nodes)
    for k, (u, v) in enumerate(edges):
        w = WIDER[5 * k % len(WIDER)] if weights == 5 and forest else weight(k, weights)
        if w is None:
            H.add_edge(lab[u], lab[v])
        else:
            H.add_edge(lab[u], lab[v], weight=w)
    if order == 3:
        H.add_nodes_from(lab[v] for v in nodes)
    if label in ("gap", "rev", "tup"):
        decorate(H)
    return H


def decorate(H):
    """Attributes that have no meaning for the package."""
    H.graph.update(name="decorated", weight=5, root=0)
    for i, v in enumerate(H):
        H.nodes[v].update(weight=2 * i + 3, root=i == len(H) // 2, pos=(i, -i), color=i % 3, sign=(-1) ** i,
                          bipartite=i % 2, label="x%d" % i, matched=i % 2 == 0)
    for i, e in enumerate(H.edges):
        H.edges[e].update(capacity=i + 2, color="red", sign=(-1) ** i, length=3.5 + i, label="y", sense=-1, key=i)


WIDE = [1, 1e3, 2e-3, 30, 500, 1e-3, 0.5]  # weights of very different sizes
WIDER = [1, 1e4, 1e-4, 30, 1e9, 2e-9, 0.5]  # on forests, where no two matchings compete


def weight(k, scheme):
    if scheme == 0:
        return None
    if scheme == 1:
        return WTS[k % len(WTS)]
    if scheme == 2:
        return None if k % 3 == 1 else WTS[(2 * k) % len(WTS)]  # some edges unweighted
    if scheme == 3:
        return 0 if k % 4 == 2 else 1 + k % 5  # zero weights
    if scheme == 4:
        return 0.01 * (1 + (3 * k) % 7)
    if scheme == 5:
        return WIDE[5 * k % len(WIDE)]
    raise KeyError(scheme)


def wmap(G):
    return {(u, v): d.get("weight", 1) for u, v, d in G.edges(data=True)}


FAMILIES = {
    "grid23": lambda: nx.grid_2d_graph(2, 3), "grid25": lambda: nx.grid_2d_graph(2, 5),
    "grid33": lambda: nx.grid_2d_graph(3, 3), "grid34": lambda: nx.grid_2d_graph(3, 4),
    "grid44": lambda: nx.grid_2d_graph(4, 4), "grid36": lambda: nx.grid_2d_graph(3, 6),
    "grid45": lambda: nx.grid_2d_graph(4, 5), "grid66": lambda: nx.grid_2d_graph(6, 6),
    "grid28": lambda: nx.grid_2d_graph(2, 8),
    "cyc4": lambda: nx.cycle_graph(4), "cyc6": lambda: nx.cycle_graph(6),
    "cyc8": lambda: nx.cycle_graph(8), "cyc10": lambda: nx.cycle_graph(10),
    "cyc12": lambda: nx.cycle_graph(12), "cyc17": lambda: nx.cycle_graph(17),
    "cyc7": lambda: nx.cycle_graph(7), "cyc14": lambda: nx.cycle_graph(14), "cyc22": lambda: nx.cycle_graph(22),
    "path14": lambda: nx.path_graph(14), "path15": lambda: nx.path_graph(15),
    "ladder7": lambda: nx.ladder_graph(7), "comb7": lambda: nx.Graph(
        [(i, i + 1) for i in range(6)] + [(i, i + 7) for i in range(7)]),
    "theta": lambda: nx.Graph([(i, (i + 1) % 14) for i in range(14)] + [(0, 7), (2, 12)]),
    "cactus": lambda: nx.Graph([(0, 1), (1, 2), (2, 0), (2, 3), (3, 4), (4, 5), (5, 2), (0, 6), (6, 7), (7, 0),
                                (4, 8), (8, 9)]),
    "wheel5": lambda: nx.wheel_graph(5), "wheel6": lambda: nx.wheel_graph(6),
    "wheel8": lambda: nx.wheel_graph(8), "wheel10": lambda: nx.wheel_graph(10),
    "cube": lambda: nx.cubical_graph(), "octa": lambda: nx.octahedral_graph(),
    "icosa": lambda: nx.icosahedral_graph(), "dodeca": lambda: nx.dodecahedral_graph(),
    "tetra": lambda: nx.complete_graph(4), "prism3": lambda: nx.circular_ladder_graph(3),
    "prism5": lambda: nx.circular_ladder_graph(5), "prism6": lambda: nx.circular_ladder_graph(6),
    "ladder6": lambda: nx.ladder_graph(6), "path6": lambda: nx.path_graph(6),
    "path9": lambda: nx.path_graph(9), "star5": lambda: nx.star_graph(5),
    "btree": lambda: nx.balanced_tree(2, 3), "tri3": lambda: nx.triangular_lattice_graph(3, 4),
    "hex2": lambda: nx.hexagonal_lattice_graph(2, 2), "hex3": lambda: nx.hexagonal_lattice_graph(2, 3),
    "k24": lambda: nx.complete_bipartite_graph(2, 4), "tutte": lambda: nx.frucht_graph(),
    "trunc": lambda: nx.truncated_tetrahedron_graph(), "fan": lambda: nx.wheel_graph(9),
    "two4": lambda: nx.disjoint_union(nx.cycle_graph(4), nx.cycle_graph(4)),
    "mixdis": lambda: nx.disjoint_union(nx.cycle_graph(6), nx.path_graph(2)),
    "odddis": lambda: nx.disjoint_union(nx.cycle_graph(3), nx.cycle_graph(5)),
    "three": lambda: nx.disjoint_union_all([nx.path_graph(2), nx.cycle_graph(4), nx.complete_graph(4)]),
    "iso": lambda: nx.disjoint_union(nx.cycle_graph(4), nx.empty_graph(1)),
    "iso2": lambda: nx.disjoint_union(nx.empty_graph(1), nx.disjoint_union(nx.cycle_graph(4), nx.empty_graph(1))),
    "bow": lambda: nx.Graph([(0, 1), (1, 2), (2, 0), (2, 3), (3, 4), (4, 2)]),
    "bridge": lambda: nx.Graph([(0, 1), (1, 2), (2, 0), (2, 3), (3, 4), (4, 5), (5, 3)]),
}
NONPLANAR = {
    "k5": lambda: nx.complete_graph(5), "k6": lambda: nx.complete_graph(6),
    "k33": lambda: nx.complete_bipartite_graph(3, 3), "k7": lambda: nx.complete_graph(7),
    "k44": lambda: nx.complete_bipartite_graph(4, 4), "petersen": lambda: nx.petersen_graph(),
    "k8": lambda: nx.complete_graph(8), "mobius": lambda: nx.circulant_graph(8, [1, 4]),
    "k33+": lambda: nx.disjoint_union(nx.complete_bipartite_graph(3, 3), nx.path_graph(2)),
    "k5+": lambda: nx.disjoint_union(nx.complete_graph(5), nx.path_graph(3)),
    "heawood": lambda: nx.heawood_graph() , "c10": lambda: nx.circulant_graph(10, [1, 5]),
}


def as_int(G):
    return nx.convert_node_labels_to_integers(G)


def stack(k):
    """Maximal planar graph on k vertices built by stacking, with a fixed choice rule."""
    G = nx.complete_graph(3)
    faces = [(0, 1, 2), (0, 1, 2)]
    for v in range(3, k):
        f = faces.pop((7 * v) % len(faces))
        for u in f:
            G.add_edge(u, v)
        a, b, c = f
        faces += [(a, b, v), (b, c, v), (a, c, v)]
    return G


DENSE = {  # for the brute-force listing alone
    "k10": lambda: nx.complete_graph(10),
    "k10x": lambda: nx.Graph([e for k, e in enumerate(nx.complete_graph(10).edges) if k not in (3, 30)]),
}


def base_graph(case):
    kind = case[0]
    if kind == "mask":
        return from_mask(case[1], case[2])
    if kind == "atlas":
        return nx.graph_atlas(case[1])
    if kind == "fam":
        return as_int((FAMILIES.get(case[1]) or NONPLANAR.get(case[1]) or DENSE[case[1]])())
    if kind == "stack":
        G = stack(case[1])
        for k, e in enumerate(sorted(tuple(sorted(e)) for e in G.edges)):
            if case[2] and (k * case[2]) % 7 == 3:
                G.remove_edge(*e)
        return G
    if kind == "join":  # two atlas graphs sharing vertex 0
        A, B = nx.graph_atlas(case[1]), nx.graph_atlas(case[2])
        n = len(A)
        G = A.copy()
        G.add_nodes_from(range(n + len(B) - 1))
        G.add_edges_from((0 if u == 0 else n - 1 + u, 0 if v == 0 else n - 1 + v) for u, v in B.edges)
        return G
    if kind == "union":
        return nx.disjoint_union(nx.graph_atlas(case[1]), nx.graph_atlas(case[2]))
    raise KeyError(kind)


class GraphSpace(Space):
    planar_only = False

    def bounds(self, tier):
        return ("every labelled graph on <= 5 vertices, every graph on 6-7 vertices up to isomorphism "
                "(several labellings), disjoint unions and one-vertex joins of small graphs, "
                "lattice/polyhedron/stacked-triangulation families to 36 vertices"
                + ("; every labelled graph on 6 vertices" if tier != "quick" else ""))

    def shards(self, tier):
        out = [["fam", k] for k in sorted(FAMILIES)]
        if not self.planar_only:
            out += [["fam", k] for k in sorted(NONPLANAR)]
        out += [["atlas", r, 12] for r in range(12)]
        out += [["mask", 5, r, 8] for r in range(8)] + [["mask", n, 0, 1] for n in (4, 3, 2, 1)]
        out += [["stack", k] for k in range(4, 13)] + [["union", r, 4] for r in range(4)] + [
            ["join", r, 4] for r in range(4)]
        if tier != "quick":
            out += [["mask", 6, r, 64] for r in range(64)]
        return out

    def cases(self, shard, tier):
        what = shard[0]
        if what == "mask":
            n, r, k = shard[1:]
            for m in range(2 ** (n * (n - 1) // 2)):
                if m % k == r:
                    yield ["mask", n, m]
        elif what == "atlas":
            for g in range(53, 1253):  # 6 and 7 vertices (first 53 have at most 5)
                if g % shard[2] == shard[1]:
                    yield ["atlas", g]
        elif what == "fam":
            yield ["fam", shard[1]]
        elif what == "stack":
            for d in range(0, 5):
                yield ["stack", shard[1], d]
        elif what in ("union", "join"):
            gs = [g for g in range(1, 53)]
            for i, (a, b) in enumerate(itertools.combinations_with_replacement(gs, 2)):
                if i % shard[2] == shard[1]:
                    yield [what, a, b]

    def variants(self, case, tier="quick"):
        """Label/order/weight dressings applied to the base graph."""
        if case[0] == "mask":
            m = case[2]
            return [("int", 0, 0), ("int", 1, 1), (list(LABELS)[m % 7], m % 4, m % 6)]
        if case[0] in ("atlas", "union", "join", "stack"):
            k = case[1] + 3 * (case[2] if len(case) > 2 else 0)
            return [("int", 0, 0), (list(LABELS)[k % 7], (k // 7) % 4, k % 6)]
        return [(l, o, w) for l in LABELS for o in range(4) for w in range(6)
                if (list(LABELS).index(l) + o + w) % 3 == 0]


def tolerance(G, want):
    """The planar count is the square root of a floating-point determinant, to ten decimals."""
    return 1e-5 * abs(want) + 1e-8


class MatchingCount(GraphSpace):
    rule = ("state = (graph, labelling, insertion order, weights); transition = deletion recurrence "
            "edge (count(G) = count(G - e) + w(e) count(G - u - v)); trace = one count compared with "
            "the recursive reference")
    assumptions = ["weights are non-negative (the planar route returns the absolute value of the sum)",
                   "at least one vertex; at most 15 vertices when the graph is not planar"]

    def run(self, case, rec):
        G0 = base_graph(case)
        if len(G0) == 0:
            return
        for lab, order, ws in self.variants(case):
            G = dress(G0, lab, order, ws)
            self.one(G, rec)
        if len(G0) <= 7 and G0.number_of_edges() and case[0] in ("mask", "atlas"):
            # deletion recurrence on the implementation itself
            G = dress(G0, "int", 0, 1)
            es = sorted(G.edges)
            e = es[(case[-1] * 7) % len(es)]
            w = G.edges[e].get("weight", 1)
            G1, G2 = G.copy(), G.copy()
            G1.remove_edge(*e)
            G2.remove_nodes_from(e)
            a = ff.count_perfect_matchings(G)
            b = ff.count_perfect_matchings(G1)
            c = ff.count_perfect_matchings(G2) if len(G2) else 1
            rec.trans()
            rec.trace()
            rec.check(abs(a - b - w * c) < 1e-5 * abs(a) + tolerance(G, 0),
                      "deletion recurrence: %s != %s + %s*%s", a, b, w, c)

    def one(self, G, rec):
        want = ref.match_weight(list(G.nodes), wmap(G)) if len(G) % 2 == 0 else 0
        rec.state((list(G.nodes), sorted(map(repr, G.edges(data=True)))))
        before = (list(G.nodes), list(G.edges(data=True)))
        before = (before[0], [(u, v, dict(d)) for u, v, d in before[1]])
        got = [ff.count_perfect_matchings(G)]
        rec.trace()
        rec.trans()
        tol = tolerance(G, want)
        if nx.is_planar(G):
            got.append(ff.count_perfect_matchings_planar(G))
            rec.trace()
        for g in got:
            rec.check(np.ndim(g) == 0 and abs(g - want) <= tol,
                      "count %s, expected %s for nodes %s edges %s", g, want, list(G.nodes),
                      list(G.edges(data=True))[:40])
        rec.check(before == (list(G.nodes), list(G.edges(data=True))), "the graph was modified")
        rec.outcome(want)


class Orientation(GraphSpace):
    planar_only = True
    rule = ("state = (planar graph, labelling, insertion order, weights); transition = one perfect "
            "matching (a monomial of the Pfaffian); trace = one orientation matrix checked: entries "
            "+-1 exactly on edges, all monomials of one sign")
    assumptions = ["only the upper triangle is read, as the counting routine does"]

    def run(self, case, rec):
        G0 = base_graph(case)
        if len(G0) == 0 or not nx.is_planar(G0):
            return
        for lab, order, ws in self.variants(case):
            if ws == 3:
                ws = 1
            G = dress(G0, lab, order, ws)
            P = ff.pfo_algorithm(G)
            rec.trace()
            nodes = list(G.nodes)
            n = len(nodes)
            pos = {v: i for i, v in enumerate(nodes)}
            rec.state((nodes, sorted(map(repr, G.edges(data=True)))))
            rec.check(P.shape == (n, n), "shape %s", P.shape)
            es = {tuple(sorted((pos[u], pos[v]))) for u, v in G.edges}
            for i in range(n):
                for j in range(i + 1, n):
                    x = P[i, j]
                    rec.check(x == 0 if (i, j) not in es else x in (1, -1),
                              "entry (%d,%d) is %s", i, j, x)
            adj = {v: {pos[x] for x in G[nodes[v]]} for v in range(n)}
            signs = set()
            if n % 2 == 0 and n <= 20:
                for M in itertools.islice(iter(ref.matchings(range(n), adj)), 4000):
                    order_ = [x for e in sorted(tuple(sorted(e)) for e in M) for x in e]
                    s = ref.perm_sign(order_)
                    for e in M:
                        i, j = sorted(e)
                        s *= P[i, j]
                    rec.trans()
                    signs.add(s)
            elif n % 2 == 0:
                U = np.triu(P, 1)
                w = ref.match_weight(range(n), {e: 1 for e in es})
                d = np.linalg.det(U - U.T)
                rec.trans()
                rec.check(abs(math.sqrt(max(d, 0)) - w) < 1e-4 * (1 + w), "Kasteleyn count %s vs %s", d, w)
            rec.check(len(signs) <= 1, "perfect matchings contribute with both signs")
            rec.outcome((n, len(signs)))
            # every even cycle whose removal leaves a perfect matching is oddly oriented: the same
            # statement on every induced even subgraph is a consequence only through matchings of it
        if case[0] == "mask" and G0.number_of_edges():
            P = ff.pfo_algorithm(G0)
            rec.check(np.array_equal(P, ff.pfo_algorithm(G0.copy())), "not deterministic")
            if case[2] % 61 == 11:
                rec.check(np.array_equal(P, ff.pfo_algorithm(G0, verbose=True)), "verbose changes the orientation")


MARKS = [(99j, 99j), (1j, 1j), (-1j, -1j), (1j, -1j), (-2j, 2j), (0, 0)]


class CompleteFace(Space):
    rule = ("state = (cycle with labels, signs of all but one edge); transition = completion of the "
            "missing edge; trace = one completion checked for the odd-orientation rule")

    def bounds(self, tier):
        return "cycles of length 3..%d (7 to 12 with labels to 37 on a reduced set), every sign assignment, every missing edge, every vertex order " \
               "up to rotation; every closed walk of length 5..%d on 4 to 6 vertices that walks a bridge in " \
               "both directions" % ((6, 8) if tier == "quick" else (7, 10))

    def shards(self, tier):
        return [[k] for k in ((7, 6, 5, 4, 3) if tier != "quick" else (6, 5, 4, 3))] + [["long"]] + \
            [["walk", k, n] for k in range(5, 9 if tier == "quick" else 11) for n in (4, 5, 6)]

    @staticmethod
    def walks(k, n):
        """closed walks from 0 of length k that use all n vertices and every dart at most once, with
        at least one edge walked in both directions and at least one in a single direction"""
        def go(w, used):
            if len(w) == k:
                d = (w[-1], 0)
                if w[-1] != 0 and d not in used:
                    darts = used | {d}
                    both = [x for x in darts if x[::-1] in darts]
                    if both and len(both) < k and len(set(w)) == n:
                        yield w
                return
            for v in range(min(n, max(w) + 2)):
                d = (w[-1], v)
                if v != w[-1] and d not in used:
                    yield from go(w + [v], used | {d})
        yield from go([0], frozenset())

    def cases(self, shard, tier):
        k = shard[0]
        if k == "walk":
            _, k, n = shard
            for i, w in enumerate(self.walks(k, n)):
                darts = [(w[j], w[(j + 1) % k]) for j in range(k)]
                lab = [list(range(n)), list(range(n))[::-1], [(3 * v + i) % 7 for v in range(n)]][i % 3]
                m = len({tuple(sorted(d)) for d in darts})
                for j, (u, v) in enumerate(darts):
                    if (v, u) not in darts:
                        for s in range(2 ** (m - 1)):
                            if k < 8 or (s + j + i) % 8 == 0:
                                yield ["w", [lab[x] for x in w], j, s]
            return
        if k == "long":
            for k in range(7, 13):
                for r in range(3):
                    p = [1 + (i * [1, 5, 7][r]) % 37 for i in range(1, k)]
                    for m in range(k):
                        for s in (0, 1, 2, 5, 2 ** (k - 1) - 1, 2 ** (k - 2), 0x555 % 2 ** (k - 1)):
                            yield [k, p, m, s]
            return
        for p in itertools.permutations(range(1, k)):
            for m in range(k):
                for s in range(2 ** (k - 1)):
                    yield [k, list(p), m, s]

    def run(self, case, rec):
        k, p, miss, s = case
        if k == "w":
            cyc, k = list(p), len(p)
        else:
            cyc = [0] + list(p)
        big = (s + miss) % 2  # embed the face into a larger matrix with other entries
        n = max(cyc) + 1 + big
        P = np.zeros((n, n), dtype=complex)
        edges = [(cyc[i], cyc[(i + 1) % k]) for i in range(k)]
        signs = [1 - 2 * (s >> i & 1) for i in range(k - 1)]
        signs.insert(miss, None)
        if case[0] == "w":  # the bits of s belong to the distinct edges
            dist = list({tuple(sorted(e)): 0 for i, e in enumerate(edges) if i != miss})
            signs = [None if i == miss else 1 - 2 * (s >> dist.index(tuple(sorted(e))) & 1) for i, e in enumerate(edges)]
            signs = [x if x is None or u < v else -x for x, (u, v) in zip(signs, edges)]
        seen = set()
        for (u, v), x in zip(edges, signs):
            a, b = min(u, v), max(u, v)
            if (a, b) in seen:  # a bridge walked back
                continue
            seen.add((a, b))
            if x is None:  # an edge without orientation has no real part
                P[a, b], P[b, a] = MARKS[(s + sum(p[:2]) + miss) % len(MARKS)]
            else:
                d = x if u < v else -x  # x: along (+1) or against (-1) the traversal
                P[a, b], P[b, a] = d, -d
        if not P.imag.any() and s % 2:
            P = P.real.copy()  # a real matrix, the edge without orientation is zero
        before = P.copy()
        Q = ff.complete_face(P, edges, verbose=True) if (s + miss) % 3 == 1 else ff.complete_face(P, edges)
        rec.state(case)
        rec.trace()
        rec.trans()
        a, b = sorted(edges[miss])
        val = Q[a, b]
        rec.check(val in (1, -1), "completed entry is %s", val)
        along = 1
        for u, v in edges:
            x = Q[min(u, v), max(u, v)]
            along *= x if u < v else -x
        rec.check(along == -1, "number of edges against the traversal is even")
        for i in range(n):
            for j in range(n):
                if {i, j} != {a, b}:
                    rec.check(Q[i, j] == before[i, j], "entry (%d,%d) changed", i, j)
        rec.outcome((val.real, a, b))


class FacesDual(GraphSpace):
    planar_only = True
    rule = ("state = (connected planar graph, spanning tree); transition = following one embedding "
            "half-edge, or one non-tree edge crossed in the dual; trace = one face list or dual graph "
            "checked")
    assumptions = ["integer vertex labels (the face walk orders half-edges)", "at least one edge"]

    def run(self, case, rec):
        G0 = base_graph(case)
        if len(G0) < 2 or G0.number_of_edges() == 0:
            return
        if not nx.is_planar(G0):
            rec.trace()
            rec.trans()
            rec.state(("np", case))
            rec.check(isinstance(ff.faces(G0), int) and ff.faces(G0) == 0, "non-planar graph has faces")
            return
        if not nx.is_connected(G0):
            return
        k = sum(x for x in case if isinstance(x, int))
        for lab, order in (("int", 0), (("gap", "rev", "one")[k % 3], k % 4)):
            G = dress(G0, lab, order, 0)
            emb = nx.check_planarity(G)[1]
            # the embedding found by default, its mirror image, that of another insertion order, or none
            data = {v: list(x) for v, x in emb.get_data().items()}
            mirror = nx.PlanarEmbedding()
            mirror.set_data({v: x[::-1] for v, x in data.items()})
            alt = nx.Graph()
            alt.add_nodes_from(list(G)[::-1])
            alt.add_edges_from((v, u) for u, v in list(G.edges)[::-1])
            alt = nx.check_planarity(alt)[1]
            for e in (mirror, alt, emb, None):
                F = ff.faces(G, e) if e is not None else ff.faces(G)
                rec.trace()
                darts = [tuple(d) for f in F for d in f]
                rec.check(sorted(darts) == sorted([(u, v) for u, v in G.edges] + [(v, u) for u, v in G.edges]),
                          "every edge must be walked once in each direction")
                rec.check(len(G) - G.number_of_edges() + len(F) == 2, "Euler: %d faces", len(F))
                for f in F:
                    for i, (u, v) in enumerate(f):
                        rec.trans()
                        x, y = f[(i + 1) % len(f)]
                        rec.check(v == x, "face is not a closed walk")
                        if e is not None:
                            rec.check(y == e[v][u]["cw"], "face does not follow the embedding")
            self.dual(G, F, rec)
            # the same graph object with one edge less
            chord = next((e for e in list(G.edges)[::-1] if e not in set(nx.bridges(G))
                          and e[::-1] not in set(nx.bridges(G))), None) if order != 1 else None
            if chord:
                G.remove_edge(*chord)
                F2 = ff.faces(G)
                rec.trace()
                rec.check(sorted(tuple(d) for f in F2 for d in f) == sorted([(u, v) for u, v in G.edges] + [(v, u) for u, v in G.edges])
                          and len(F2) == len(F) - 1, "after the removal of edge %s: faces %s", chord, F2)

    def dual(self, G, F, rec):
        nodes = sorted(G.nodes)
        idx = {v: i for i, v in enumerate(nodes)}
        es = [tuple(sorted((idx[u], idx[v]))) for u, v in G.edges]
        if len(nodes) < 7:
            trees = itertools.islice(ref.spanning_trees(len(nodes), es), 80)
        else:
            base = nx.Graph()
            base.add_nodes_from(range(len(nodes)))
            base.add_edges_from(es)
            trees = [tuple(sorted(tuple(sorted(e)) for e in f(base, r).edges))
                     for r in (0, len(nodes) // 2, len(nodes) - 1) for f in (nx.bfs_tree, nx.dfs_tree)]
        for t, T in enumerate(trees):
            tree = nx.Graph()
            flip = t % 2
            tree.add_nodes_from(list(G.nodes)[::-1] if flip else G.nodes)
            tree.add_edges_from((nodes[v], nodes[u]) if flip else (nodes[u], nodes[v]) for u, v in T)
            H = ff.dual_graph_H(G, F, tree)
            rec.trace()
            rec.state((tuple(G.nodes), tuple(sorted(es)), T))
            want = set()
            sides = {}
            for i, f in enumerate(F):
                for u, v in f:
                    sides.setdefault(frozenset((u, v)), set()).add(i)
            ts = set(T)
            for e in es:
                if e not in ts:
                    rec.trans()
                    want.add(frozenset(sides[frozenset((nodes[e[0]], nodes[e[1]]))]))
            rec.check(sorted(H.nodes) == list(range(len(F))), "one dual vertex per face")
            rec.check({frozenset(e) for e in H.edges} == want, "dual edges %s, expected %s",
                      list(H.edges), [sorted(x) for x in want])
            rec.check(nx.is_tree(H), "dual of a spanning tree is not a tree")
            rec.outcome(len(F))


class BruteMatchings(GraphSpace):
    rule = ("state = (graph, labelling, order); transition = one perfect matching of the reference "
            "enumeration; trace = one returned list compared as a set without repetition")
    assumptions = ["at most 15 vertices (the routine declines larger graphs)"]

    def shards(self, tier):
        return [s for s in super().shards(tier) if not (s[0] == "fam" and s[1] in (
            "grid45", "grid66", "grid36", "icosa", "dodeca", "grid44", "grid28", "hex3", "cyc17", "tri3",
            "heawood", "k8", "hex2", "prism6", "trunc", "tutte", "btree", "ladder6", "grid34", "c10",
            "three", "prism5", "k44")
            and tier == "quick")] + ([["fam", "k8"]] if tier == "quick" else []) + [
            ["fam", "k10"], ["fam", "k10x"]]

    def run(self, case, rec):
        G0 = base_graph(case)
        n = len(G0)
        m = G0.number_of_edges()
        if n > 15:
            rec.trace()
            rec.trans()
            rec.check(list(ff.find_perfect_matchings_brute(G0)) == [], "n > 15 must be declined")
            return
        if n == 0 or math.comb(m, n // 2) > 1300000:
            return
        vs = self.variants(case)
        for lab, order, ws in vs[:1 if m > 40 else 2] if case[0] == "fam" else vs:
            G = dress(G0, lab, order, ws)
            got = ff.find_perfect_matchings_brute(G)
            rec.trace()
            rec.state((list(G.nodes), sorted(map(repr, G.edges))))
            adj = {v: set(G[v]) for v in G}
            want = set(ref.matchings(list(G.nodes), adj)) if n % 2 == 0 else set()
            rec.trans(len(want) + 1)
            gs = [frozenset(frozenset(e) for e in M) for M in got]
            rec.check(len(gs) == len(set(gs)), "a matching is listed twice")
            rec.check(set(gs) == want, "%d matchings, expected %d", len(gs), len(want))
            rec.check(all(len(M) == n // 2 for M in got), "wrong number of edges")
            rec.outcome(len(want))


class TreeDepth(Space):
    rule = ("state = (labelled tree, root order); transition = breadth-first step; trace = one depth "
            "compared, or one non-tree rejected with ValueError")

    def bounds(self, tier):
        return "all labelled trees to %d vertices (Pruefer), every root; all labelled non-tree graphs on " \
               "<= 5 vertices, also with a self-loop, and larger ones" % (7 if tier == "quick" else 8)

    def shards(self, tier):
        top = 7 if tier == "quick" else 8
        return [["tree", n, r] for n in range(top, 0, -1) for r in (range(n) if n > 4 else [-1])] + [
            ["non", n, r] for n in (5, 4, 3, 2) for r in (range(4) if n == 5 else [-1])] + [["big", 0, 0]]

    def cases(self, shard, tier):
        what, n, r = shard
        if what == "tree":
            for s in itertools.product(range(n), repeat=max(0, n - 2)):
                if r == -1 or s[0] == r:
                    yield ["tree", n, list(s)]
        elif what == "non":
            for m in range(2 ** (n * (n - 1) // 2)):
                if r == -1 or m % 4 == r:
                    yield ["non", n, m]
        else:
            for k in (9, 10, 16, 17, 30, 64, 200, 999, 1500):
                yield ["path", k]
                yield ["star", k]
                yield ["broom", k]
            for k in (7, 12, 33):
                for j in range(k):
                    for kind in range(4):
                        yield ["bigno", k, j, kind]

    @staticmethod
    def refused(G, rec):
        rec.trace()
        rec.trans()
        try:
            d = ff.compute_tree_depth(G)
        except ValueError:
            return
        rec.fail("non-tree accepted with depth %s" % d)

    def run(self, case, rec):
        what = case[0]
        rec.state(case)
        if what == "non":
            G = from_mask(case[1], case[2])
            if not nx.is_tree(G):
                self.refused(G, rec)
            for v in range(case[1]):
                H = G.copy()
                H.add_edge(v, v)
                self.refused(H, rec)
            return
        if what == "bigno":
            k, j, kind = case[1:]
            G = nx.path_graph(k) if kind < 3 else nx.star_graph(k)
            if kind == 0:  # one edge too many
                G.add_edge(j, (j + 2) % k)
            elif kind == 1:  # an isolated vertex
                G.add_node("x")
            elif kind == 2:  # cut once, and a cycle closed elsewhere
                G.remove_edge(j, j + 1) if j + 1 < k else G.remove_edge(0, 1)
                G.add_edge(*((0, 2) if j > 2 else (k - 3, k - 1)))
            else:
                G.remove_edge(0, j + 1)
            if not nx.is_tree(G):
                self.refused(G, rec)
            return
        if what == "tree":
            n = case[1]
            edges = ref.prufer_tree(case[2], n)
            roots = range(n)
        else:
            k = case[1]
            G = {"path": nx.path_graph, "star": nx.star_graph,
                 "broom": lambda k: nx.compose(
                     nx.path_graph(k), nx.Graph([(k - 1, k + i) for i in range(3)]))}[what](k)
            edges, n = list(G.edges), len(G)
            roots = (0, n // 2, n - 1)
        for root in roots:
            for lab in ("int", "str") if n <= 5 else ("int",):
                names = LABELS[lab](n) if lab != "int" else list(range(n))
                G = nx.Graph()
                G.add_node(names[root])
                order = range(n) if root % 2 else range(n - 1, -1, -1)
                G.add_nodes_from(names[v] for v in order)
                G.add_edges_from((names[v], names[u]) if root % 2 else (names[u], names[v])
                                 for u, v in edges)
                if root % 3 == 0:
                    nx.set_edge_attributes(G, {e: 2 + i for i, e in enumerate(G.edges)}, "weight")
                if root % 2 or lab == "str":
                    decorate(G)
                want, reach = ref.bfs_depth(edges, root)
                rec.check(reach == n, "harness: not a tree")
                got = ff.compute_tree_depth(G)
                rec.trace()
                rec.trans()
                rec.check(got == want, "depth %s from root %s, expected %s", got, root, want)
                rec.outcome(want)


class RandomPlanar(Space):
    rule = ("state = (vertex count, seed, prior generator state); transition = one draw; trace = one "
            "drawn graph checked and compared with a second draw from the same seed")
    assumptions = ["seeds and generator outputs are enumerated; giving up (None after many attempts) is allowed "
                   "only for more than 12 vertices"]

    def bounds(self, tier):
        return "1..12 vertices x %d seeds (13..16: %d), 2 prior generator states; 2..6 vertices x every choice of the " \
               "generator's first %d words among 16; every graph on 2..4 vertices must occur" % (
                   (24, 6, 2) if tier == "quick" else (300, 40, 4))

    def shards(self, tier):
        assert env.selftest()
        return [[n] for n in range(1, 17)] + [["all", n] for n in (4, 3, 2)] + [
            ["words", n, v, 2 if tier == "quick" else 4] for n in (6, 5, 4, 3, 2) for v in range(16)]

    def cases(self, shard, tier):
        if shard[0] == "words":
            for vs in itertools.product(range(16), repeat=shard[3] - 1):
                yield ["words", shard[1], [shard[2], *vs]]
            return
        if shard[0] == "all":
            yield shard
            return
        if shard[0] > 12:
            for s in range(6 if tier == "quick" else 40):
                yield [shard[0], s]
            return
        for s in list(range(24 if tier == "quick" else 300)) + [2**31, 123456789, 42]:
            yield [shard[0], s]
        for s in range(5):
            yield [shard[0], None, s]

    def run(self, case, rec):
        n, seed = case[0], case[1]
        out = []
        if n == "all":
            n = seed
            seen = {tuple(sorted(tuple(sorted(e)) for e in ff.generate_random_planar_graph(n, seed=s).edges))
                    for s in range(600)}
            want = [es for m in range(n - 1, max(n - 1, 2 * n - 3) + 1)
                    for es in itertools.combinations(itertools.combinations(range(n), 2), m)
                    if nx.is_connected(nx.Graph(es)) and len(nx.Graph(es)) == n]
            rec.trace(600)
            rec.trans(600)
            rec.state(case)
            rec.check(seen == set(want), "%d of %d graphs occur", len(seen), len(want))
            return
        if n == "words":
            n = seed
        for prior in (1, 99):
            random.seed(prior)
            np.random.seed(prior)
            if case[0] == "words":
                env.set_python(env.nibbles(n, case[2]))
                out.append(ff.generate_random_planar_graph(n))
            elif seed is None:
                random.seed(case[2])
                out.append(ff.generate_random_planar_graph(n))
            else:
                out.append(ff.generate_random_planar_graph(n, seed=seed))
            rec.trace()
            rec.trans()
        G, H = out
        rec.state(case)
        rec.check((G is None) == (H is None), "same seed, different outcome")
        if G is None:
            if n > 12:
                return
            rec.fail("no graph for n=%d" % n)
        rec.check(list(G.nodes) == list(H.nodes) and sorted(G.edges) == sorted(H.edges),
                  "same seed, different graph")
        rec.check(sorted(G.nodes) == list(range(n)), "vertex set")
        rec.check(not G.is_directed() and not G.is_multigraph() and nx.number_of_selfloops(G) == 0,
                  "not a simple graph")
        rec.check(nx.is_connected(G), "not connected")
        rec.check(nx.check_planarity(G)[0], "not planar")
        m = G.number_of_edges()
        rec.check(n - 1 <= m <= max(n - 1, 2 * n - 3), "%d edges for n=%d", m, n)
        rec.outcome((n, tuple(sorted(G.edges))))
