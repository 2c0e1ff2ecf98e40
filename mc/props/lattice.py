"""Matching counts of large planar graphs against exact counting along a vertex order."""

import itertools
import math
from fractions import Fraction

import networkx as nx
import numpy as np

import ff

from .. import ref
from ..engine import Space


def exact_count(order, w):
    """Weighted number of perfect matchings, exactly: the state is the set of later vertices already
    matched, so the cost is exponential only in the width of the order."""
    at = {v: i for i, v in enumerate(order)}
    later = [[] for _ in order]
    for (u, v), x in w.items():
        i, j = sorted((at[u], at[v]))
        if i == j:
            raise ValueError("self-loop")
        if x:
            later[i].append((j, Fraction(x)))
    table = {0: Fraction(1)}
    states = 1
    for i in range(len(order)):
        new = {}
        for mask, c in table.items():
            if mask >> i & 1:
                m = mask & ~(1 << i)
                new[m] = new.get(m, 0) + c
            else:
                for j, x in later[i]:
                    if not mask >> j & 1:
                        m = mask | 1 << j
                        new[m] = new.get(m, 0) + c * x
        table = new
        states += len(table)
    return table.get(0, Fraction(0)), states


def cylinder(m, n):
    """n stacked cycles of length m."""
    return nx.cartesian_product(nx.path_graph(n), nx.cycle_graph(m))


def aztec(k):
    """Dual of the Aztec diamond of order k."""
    return nx.Graph(((x, y), (x + dx, y + dy)) for x in range(-k, k) for y in range(-k, k)
                    for dx, dy in ((1, 0), (0, 1))
                    if all(abs(a + 0.5) + abs(b + 0.5) <= k for a, b in ((x, y), (x + dx, y + dy))))


def strip(n, k):
    """Band of triangles: i adjacent to i+1, ..., i+k (k = 2), with a roof over it."""
    G = nx.Graph((i, j) for i in range(n) for j in (i + 1, i + 2) if j < n)
    if k == 3:
        G.add_edge(0, n - 1)
    return G


def tower(n):
    """Nested triangles joined to their neighbours (3 n vertices, nearly triangulated)."""
    G = nx.Graph()
    for i in range(n):
        a = [3 * i + j for j in range(3)]
        G.add_edges_from(zip(a, a[1:] + a[:1]))
        if i:
            b = [x - 3 for x in a]
            G.add_edges_from(zip(a, b))
            G.add_edges_from(zip(a, b[1:] + b[:1]))
    return G


FAMILY = {
    "grid": (lambda m, n: nx.grid_2d_graph(n, m), [(2, n) for n in (3, 9, 20, 21, 40, 60, 100)]
             + [(3, n) for n in (4, 8, 12, 30)] + [(4, n) for n in (4, 5, 9, 14, 25)] + [(5, n) for n in (4, 6, 8, 12)]
             + [(6, n) for n in (6, 7, 8, 12)] + [(7, 8), (8, 8)], [(8, 10), (8, 12), (9, 10), (10, 10)]),
    "cylinder": (cylinder, [(m, n) for m in (3, 4, 5, 6, 7) for n in (2, 3, 4, 6, 8)] + [(8, 5), (4, 16), (3, 20)],
                 [(6, 16), (8, 8), (8, 10)]),
    "aztec": (lambda k, _: aztec(k), [(k, 0) for k in (1, 2, 3, 4, 5)], [(6, 0)]),
    "strip": (strip, [(n, k) for n in (5, 6, 12, 24, 41, 60, 100) for k in (2, 3)], [(200, 2), (200, 3)]),
    "tower": (lambda n, _: tower(n), [(n, 0) for n in (2, 3, 4, 6, 8, 10, 14, 20)], [(30, 0)]),
    "hex": (lambda m, n: nx.hexagonal_lattice_graph(n, m), [(1, n) for n in (1, 2, 5, 9, 15)]
            + [(2, n) for n in (2, 3, 4, 8)] + [(3, n) for n in (3, 4, 6)], [(4, 5), (4, 8)]),
    "tri": (lambda m, n: nx.triangular_lattice_graph(m, n), [(2, 3), (2, 6), (3, 5), (3, 8), (4, 6), (5, 7)],
            [(5, 11), (6, 9)]),
    "wheel": (lambda n, _: nx.wheel_graph(n), [(n, 0) for n in (4, 7, 12, 20, 33, 50)], [(80, 0)]),
    "cycle": (lambda n, _: nx.cycle_graph(n), [(n, 0) for n in (24, 25, 50, 64, 101, 150)], [(300, 0)]),
    "grids": (lambda m, n: nx.disjoint_union_all([nx.grid_2d_graph(m, n)] * 3), [(2, 4), (3, 4), (4, 4), (3, 3)], []),
    "chain": (lambda m, n: nx.Graph([e for b in range(n) for e in nx.relabel_nodes(
        nx.cycle_graph(m), {i: b * (m - 1) + i for i in range(m)}).edges]), [(m, n) for m in (3, 4, 5, 6) for n in (
            4, 7, 11)], []),
}


class Lattices(Space):
    rule = ("state = set of matched vertices ahead of the sweep in the exact count of one graph; transition = one "
            "vertex matched in the sweep; trace = one count of the package compared")
    assumptions = ["the exact sweep is confirmed on the small graphs by listing their matchings"]

    def bounds(self, tier):
        return ("%d planar families (grids, cylinders, Aztec diamonds, bands, towers, hexagonal and triangular "
                "lattices, wheels, cycles, unions) to %d vertices, with edges and vertices removed, reordered and "
                "weighted" % (len(FAMILY), 200 if tier == "quick" else 400))

    def shards(self, tier):
        out = []
        for f, (_, small, large) in FAMILY.items():
            for a in small + (large if tier != "quick" else []):
                out.append([f, *a])
        out.sort(key=lambda s: -len(FAMILY[s[0]][0](*s[1:])))
        return out + [["self", r, 0] for r in range(4)]

    def cases(self, shard, tier):
        f, a, b = shard
        if f == "self":
            for i in range(1, 200 if tier == "quick" else 1253):
                if i % 4 == a:
                    yield ["self", i, 0]
            return
        for cut in range(4 if tier == "quick" else 8):
            for order in range(3):
                for w in range(5):
                    if (cut + order + w) % 2 == 0 or tier != "quick" and a * b < 60:
                        yield [f, a, b, cut, order, w]

    @staticmethod
    def build(case):
        f, a, b, cut, order, ws = case
        G = FAMILY[f][0](a, b)
        names = sorted(G.nodes)
        sweep = names
        if cut:
            es = sorted(tuple(sorted(e)) for e in G.edges)
            if cut in (1, 4, 5):  # some edges removed
                G.remove_edges_from([e for k, e in enumerate(es) if (k * (cut + 2)) % 11 == 5])
            elif cut in (2, 6):  # two opposite vertices removed
                G.remove_nodes_from([names[0], names[-1]] if cut == 2 else [names[0], names[len(names) // 3]])
            elif cut == 3:  # holes
                G.remove_nodes_from(names[len(names) // 2:len(names) // 2 + 2])
            else:
                G.remove_nodes_from(names[3::9][:2 * (len(names[3::9]) // 2)])
            sweep = [v for v in names if v in G]
        n = len(sweep)
        if order == 1:
            nodes = sweep[::-1]
        elif order == 2:
            step = next(s for s in range(n // 2 + 1, 2 * n + 9) if math.gcd(s, n) == 1) if n > 1 else 1
            nodes = [sweep[i * step % n] for i in range(n)]
        else:
            nodes = sweep
        if ws == 4 and n > 120:
            ws = 1  # weights this uneven are beyond a floating-point determinant of this size
        H = nx.Graph()
        H.add_nodes_from(nodes)
        w = {}
        for k, (u, v) in enumerate(sorted(tuple(sorted(e)) for e in G.edges)):
            x = [None, 1 + k % 3, [0.5, 2, 1, 0.25][k % 4], 0 if k % 13 == 7 else 1, [1, 30, 3, 0.03, 0.125][k * 3 % 5]][ws]
            w[u, v] = 1 if x is None else x
            if k % 2 and order:
                u, v = v, u
            if x is None:
                H.add_edge(u, v)
            else:
                H.add_edge(u, v, weight=x)
        if order != 1:  # vertices as integers in their order
            H = nx.relabel_nodes(H, {v: i for i, v in enumerate(nodes)}) if order == 0 else \
                nx.relabel_nodes(H, {v: i * 7 + 3 for i, v in enumerate(nodes)})
        return H, sweep, w

    def run(self, case, rec):
        if case[0] == "self":
            G = nx.graph_atlas(case[1])
            w = {e: 1 + k % 3 for k, e in enumerate(G.edges)}
            c, states = exact_count(sorted(G.nodes), w)
            rec.trans(states)
            rec.trace()
            rec.state(case)
            want = ref.match_weight(list(G.nodes), w) if len(G) % 2 == 0 else 0
            if c != want:
                raise RuntimeError("the exact count is wrong")
            nx.set_edge_attributes(G, w, "weight")
            if len(G) and nx.is_planar(G):
                got = ff.count_perfect_matchings_planar(G)
                rec.check(abs(got - float(c)) < 1e-6 * (1 + float(c)) + 1e-5, "count %s, expected %s", got, c)
            return
        H, sweep, w = self.build(case)
        c, states = exact_count(sweep, w)
        rec.trans(states)
        for k in range(states):
            if k < 2000:
                rec.state((case, k))
        want = float(c)
        rec.trace()
        got = complex(ff.count_perfect_matchings(H))
        # counts are rounded to ten decimals; a graph without a perfect matching counts exactly zero
        slack = 1e-5 * want + (1e-9 if want else 0)
        rec.check(abs(got - want) <= slack, "count %s of %d vertices, expected %s (slack %g)", got, len(H), want, slack)
        rec.outcome(c)
