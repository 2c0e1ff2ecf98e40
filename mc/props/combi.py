"""Pfaffian, Hafnian, permanent, determinant, permutation sign."""

import itertools
import math

import numpy as np

import ff
from mc import ref
from mc.engine import Space


def rel(got, want, tol=1e-9):
    got, want = complex(got), complex(want)
    return abs(got - want) <= tol * (1 + abs(want))


def skew(n, vals):
    A = [[0] * n for _ in range(n)]
    for x, (i, j) in zip(vals, itertools.combinations(range(n), 2)):
        A[i][j], A[j][i] = x, -x
    return A


WIDTHS = ["bool", "int8", "uint8", "int16", "uint16", "int32", "uint32", "int64", "uint64"]


def wide(n, dt, kind):
    """An integer matrix that fills the range of its type (values whose products do not fit in it)."""
    top = 1 if dt == "bool" else np.iinfo(dt).max
    M = [[(5 * i + 3 * j + i * j) % 4 for j in range(n)] for i in range(n)]
    M = [[0, 1, top, top // 2 + 1][x] if dt != "bool" else x % 2 for r in M for x in r]
    M = np.array(M, dtype=object).reshape(n, n)
    if kind != "any":
        sg = -1 if kind == "skew" else 1
        M = np.triu(M, 1)
        M = M + sg * M.T
    elif dt[0] == "i":
        M = M * np.array([[1 - 2 * ((i + j) % 3 == 0) for j in range(n)] for i in range(n)], dtype=object)
    return M.tolist(), np.array(M.tolist(), dtype=dt).reshape(n, n)


POWERS = [(-60, 40, 0, 20, -20, 60), (-30, -30, -30, -30, -30, -30), (-50, -50, 50, 50, 0, 0), (50, 40, 30, 20, 10, 60),
          (-4, 0, 0, 0, 0, 0), (-35, 0, 0, 0, 0, 0), (0, 0, 0, 0, 0, -35), (-17, -17, 0, 0, -17, -17)]


def scaled(M, k, both):
    """A matrix with rows and columns scaled by powers of two, and the exact logarithm of the factor."""
    n = len(M)
    e = POWERS[k][:n]
    c = e if both else POWERS[(k + 3) % len(POWERS)][:n]
    return [[math.ldexp(M[i][j], e[i] + c[j]) for j in range(n)] for i in range(n)], sum(e) + (0 if both else sum(c))


CPLX = [0, 1, -1, 1j, 2 - 1j, 0.5, 1e-4]


class Pfaffian(Space):
    rule = ("state = antisymmetric matrix; transition = congruence by one elementary matrix "
            "(swap, scale, add a row/column multiple) with the predicted change of value; trace = "
            "one value compared with the row expansion")

    def bounds(self, tier):
        return "4x4: all over {-1,0,1,2}; 6x6: all 32768 zero patterns%s, dense; 8x8 and 10x10: dense" % (
            "" if tier == "quick" else ", all over {-1,0,1} with <= 6 non-zero entries above the diagonal")

    def shards(self, tier):
        out = [["ten", s] for s in range(1 if tier == "quick" else 3)]
        out += [["eight", s] for s in range(3 if tier == "quick" else 16)]
        out += [["six", m, r] for m in range(15, -1, -1) for r in range(4)]
        if tier != "quick":
            out += [["signs", m, r] for m in range(6, 0, -1) for r in range(16)]
        out += [["four", r] for r in range(8)] + [["dense", n] for n in (6, 4, 2)] + [
            ["small", 0], ["moves", 4], ["moves", 6]]
        return out

    def cases(self, shard, tier):
        what = shard[0]
        if what == "small":
            for k in range(len(CPLX)):
                yield ["two", k]
            for n in (0, 1, 3, 5, 7, 9, 11):
                yield ["odd", n]
            for n in (2, 4, 6):
                for d in WIDTHS:
                    if d.startswith("int"):
                        yield ["wide", n, d]
                for k in range(len(POWERS)):
                    for t in range(3):
                        yield ["scaled", n, k, t]
        elif what == "four":
            for i, v in enumerate(itertools.product((0, 1, -1, 2), repeat=6)):
                if i % 8 == shard[1]:
                    yield ["four", list(v)]
        elif what == "six":
            for i, c in enumerate(itertools.combinations(range(15), shard[1])):
                if i % 4 == shard[2]:
                    yield ["six", list(c)]
        elif what == "signs":
            for i, c in enumerate(itertools.combinations(range(15), shard[1])):
                if i % 16 == shard[2]:
                    for sg in itertools.product((1, -1), repeat=shard[1]):
                        yield ["six", list(c), list(sg)]
        elif what == "dense":
            for s in range(4):
                for kind in ("int", "real", "complex", "big", "small", "list"):
                    for lay in ("C", "F", "strided", "readonly"):
                        if shard[1] < 6 or lay in "CF":
                            yield ["dense", shard[1], s, kind, lay]
        elif what == "ten":
            yield ["dense", 10, shard[1], ("int", "complex", "real")[shard[1]], "C"]
        elif what == "eight":
            yield ["eight", shard[1]]
        elif what == "moves":
            n = shard[1]
            for i, j in itertools.permutations(range(n), 2):
                for mv in range(3):
                    if n == 4 or (i + 2 * j + mv) % 4 == 0:
                        yield ["move", n, i, j, mv]

    def run(self, case, rec):
        what = case[0]
        rec.trans()
        rec.trace()
        if what == "two":
            x = CPLX[case[1]]
            A = [[0, x], [-x, 0]]
            rec.check(rel(ff.pf(A), x) and rel(ff.pf(np.array(A)), x), "2x2")
        elif what == "wide":
            rows, A = wide(case[1], case[2], "skew")
            want = ref.pfaffian(rows)
            got = [ff.pf(x) for x in ((A, rows) if case[2] != "uint64" else (A, A))]
            rec.check(all(rel(g / max(1, abs(want)), want / max(1, abs(want)), 1e-12) for g in got),
                      "%s: pf = %s, expected %s", case[2], got, want)
        elif what == "scaled":  # scaling the modes by powers of two scales the value exactly
            n, k, t = case[1:]
            M = ref.dense(t, (n, n), "int")
            M = (M - M.T).tolist()
            if t == 2:
                M = skew(n, [(-1) ** i * (1 + i % 3) * (i % 4 != 1) for i in range(n * (n - 1) // 2)])
            B, x = scaled(M, k, True)
            got, want = ff.pf(np.array(B)), math.ldexp(ref.pfaffian(M), x)
            rec.check(got == want, "scaled by %s: pf = %s, expected %s", POWERS[k], got, want)
        elif what == "odd":
            n = case[1]
            A = np.array(skew(n, range(1, n * n))).reshape(n, n)
            rec.check(rel(ff.pf(A), 1 if n == 0 else 0), "size %d", n)
        elif what == "four":
            A = skew(4, case[1])
            a = case[1]
            want = a[0] * a[5] - a[1] * a[4] + a[2] * a[3]
            got = ff.pf(np.array(A))
            rec.check(got == want, "pf = %s, expected %s", got, want)
            rec.outcome(want)
        elif what == "six":
            v = [0] * 15
            for k, x in enumerate(case[1]):
                v[x] = case[2][k] if len(case) > 2 else (-1) ** k * (1 + k % 3)
            A = skew(6, v)
            got, want = ff.pf(np.array(A)), ref.pfaffian(A)
            rec.check(got == want, "pf = %s, expected %s", got, want)
            rec.outcome(want)
        elif what in ("dense", "eight"):
            n = 8 if what == "eight" else case[1]
            kind = ("int", "complex", "real")[case[1] % 3] if what == "eight" else case[3]
            s = case[1] if what == "eight" else case[2]
            M = ref.dense(s, (n, n), kind if kind in ("int", "real", "complex") else "int")
            if kind == "real" and n >= 8:
                M = np.sin(7 * M)  # generic rank
            A = M - M.T
            if kind == "big":
                A = A * 1000
            if kind == "small":
                A = A * 1e-3
            if what == "dense":
                A = ref.layouts(A)[case[4]]
            keep = A.copy()
            got = ff.pf(A.tolist() if kind == "list" else A)
            want = ref.pfaffian(keep.tolist())
            # rounding of the (n-1)!! terms
            noise = max(1, math.prod(range(n - 1, 1, -2)) * np.abs(keep).max(initial=0) ** (n // 2)) * 1e-15
            rec.check(rel(got, want, 1e-9) and abs(got - want) <= 1e-9 * abs(want) + noise,
                      "pf = %s, expected %s", got, want)
            det = np.linalg.det(keep.astype(complex))
            rec.check(rel(got * got, det, 1e-8), "pf^2 = %s but det = %s", got * got, det)
            rec.check(np.array_equal(A, keep), "argument modified")
        elif what == "move":
            n, i, j, mv = case[1:]
            M = ref.dense(3, (n, n), "int")
            A = M - M.T
            E = np.eye(n, dtype=int)
            if mv == 0:
                E[[i, j]] = E[[j, i]]
                f = -1
            elif mv == 1:
                E[i, i] = f = 3
            else:
                E[i, j] = -2
                f = 1
            a, b = ff.pf(A), ff.pf(E @ A @ E.T)
            rec.trace()
            rec.check(b == f * a, "congruence: pf %s -> %s, factor %s", a, b, f)
        rec.state(case)


class HafnianPermanent(Space):
    rule = ("state = matrix; transition = simultaneous index permutation / row permutation / row "
            "scaling; trace = one value compared with the expansion")

    def bounds(self, tier):
        return "permanent: all 2x2 over 5 values, all 3x3 over {0,-1,2}; Hafnian: all symmetric 4x4 " \
               "over {-1,0,1,2}, all 32768 6x6 zero patterns; dense to 10x10 (permanents: 9x9); all 4x4 0/1 permanents%s" % (
                   "" if tier == "quick" else "; all 6x6 Hafnians over {-1,0,1} with <= 6 non-zero entries")

    def shards(self, tier):
        out = [["hf10", 0], ["pt78", 9, 0]] + [["hf8", s] for s in range(2 if tier == "quick" else 8)]
        out += [["pt78", n, s] for n in (8, 7) for s in range(1 if tier == "quick" else 4)]
        out += [["hf6", m, r] for m in range(15, -1, -1) for r in range(4)]
        out += [["pt4", r] for r in range(16)]
        if tier != "quick":
            out += [["hfsigns", m, r] for m in range(6, 0, -1) for r in range(16)]
        out += [["pt3", r] for r in range(8)] + [["hf4", r] for r in range(8)]
        out += [["pt2", 0], ["ptd", 0], ["hfd", 0], ["small", 0]]
        return out

    def cases(self, shard, tier):
        what = shard[0]
        if what == "pt2":
            for v in itertools.product(range(5), repeat=4):
                yield ["pt2", list(v)]
        elif what == "pt3":
            for i, v in enumerate(itertools.product((0, -1, 2), repeat=9)):
                if i % 8 == shard[1]:
                    yield ["pt3", list(v)]
        elif what == "hf4":
            for i, v in enumerate(itertools.product((0, 1, -1, 2), repeat=6)):
                if i % 8 == shard[1]:
                    yield ["hf4", list(v)]
        elif what == "hf6":
            for i, c in enumerate(itertools.combinations(range(15), shard[1])):
                if i % 4 == shard[2]:
                    yield ["hf6", list(c)]
        elif what == "hfsigns":
            for i, c in enumerate(itertools.combinations(range(15), shard[1])):
                if i % 16 == shard[2]:
                    for sg in itertools.product((1, -1), repeat=shard[1]):
                        yield ["hf6", list(c), list(sg)]
        elif what == "pt4":
            for m in range(shard[1], 65536, 16):
                yield ["pt4", m]
        elif what in ("ptd", "hfd"):
            for n in range(1, 7):
                for s in range(3):
                    for kind in ("int", "real", "complex", "big", "small", "list"):
                        for lay in ("C", "F", "strided", "readonly"):
                            if (n < 6 or lay == "C") and (kind != "big" or n < 5):
                                yield [what, n, s, kind, lay]
        elif what == "pt78":
            for k in ("int", "real", "complex"):
                yield ["ptd", shard[1], shard[2], k, "C"]
        elif what == "hf10":
            yield ["hfd", 10, 0, "real", "F"]
        elif what == "hf8":
            yield ["hf8", shard[1]]
        else:
            for n in (0, 1, 3, 5, 7, 9, 11):
                yield ["odd", n]
            for n in range(1, 7):
                for d in WIDTHS:
                    yield ["wide", n, d]
                for k in range(len(POWERS)):
                    for t in range(2):
                        yield ["scaled", n, k, t]

    def run(self, case, rec):
        what = case[0]
        rec.state(case)
        rec.trans()
        rec.trace()
        if what == "scaled":  # scaling rows and columns by powers of two scales the value exactly
            n, k, t = case[1:]
            M = ref.dense(t, (n, n), "int")
            B, x = scaled(M.tolist(), k, False)
            got, want = ff.pt(np.array(B)), math.ldexp(ref.minors(M.tolist(), False), x)
            rec.check(got == want, "scaled by %s: pt = %s, expected %s", POWERS[k], got, want)
            M = (M + M.T).tolist()
            B, x = scaled(M, k, True)
            got, want = ff.hf(np.array(B)), 0 if n % 2 else math.ldexp(ref.hafnian(M), x)
            rec.check(got == want, "scaled by %s: hf = %s, expected %s", POWERS[k], got, want)
        elif what == "wide":
            rows, A = wide(case[1], case[2], "any")
            want = ref.minors(rows, False)
            got = [int(ff.pt(x)) for x in ((A, rows) if case[2] != "uint64" else (A, A))]
            rec.check(got == [want, want], "%s: pt = %s, expected %s", case[2], got, want)
            rows, A = wide(case[1], case[2], "sym")
            want = ref.hafnian(rows) if case[1] % 2 == 0 else 0
            got = [ff.hf(x) for x in ((A, rows) if case[2] != "uint64" else (A, A))]
            rec.check(all(rel(g / max(1, abs(want)), want / max(1, abs(want)), 1e-12) for g in got),
                      "%s: hf = %s, expected %s", case[2], got, want)
        elif what == "pt4":
            A = np.array([case[1] >> k & 1 for k in range(16)]).reshape(4, 4)
            got, want = ff.pt(A), ref.minors(A.tolist(), False)
            rec.check(got == want, "pt = %s, expected %s", got, want)
            rec.outcome(want)
        elif what in ("pt2", "pt3"):
            if what == "pt2":
                v = [[0, 1, -1, 1j, 2.5][x] for x in case[1]]
                A = np.array(v).reshape(2, 2)
                want = v[0] * v[3] + v[1] * v[2]
            else:
                a, b, c, d, e, f, g, h, i = case[1]
                A = np.array(case[1]).reshape(3, 3)
                want = (a * e * i + a * f * h + b * d * i + b * f * g + c * d * h + c * e * g)
            got = ff.pt(A)
            rec.check(got == want, "pt = %s, expected %s", got, want)
            rec.outcome(str(want))
        elif what in ("hf4", "hf6"):
            n = int(what[2])
            if n == 4:
                v = case[1]
            else:
                v = [0] * 15
                for k, x in enumerate(case[1]):
                    v[x] = case[2][k] if len(case) > 2 else (-1) ** (k // 2) * (1 + k % 3)
            A = [[0] * n for _ in range(n)]
            for x, (i, j) in zip(v, itertools.combinations(range(n), 2)):
                A[i][j] = A[j][i] = x
            for i in range(n):
                A[i][i] = (i + sum(v)) % 3  # loops do not contribute
            got, want = ff.hf(np.array(A)), ref.hafnian(A)
            rec.check(got == want, "hf = %s, expected %s", got, want)
            rec.outcome(want)
        elif what in ("ptd", "hfd", "hf8"):
            n = 8 if what == "hf8" else case[1]
            kind = "int" if what == "hf8" else case[3]
            M = ref.dense(case[1] if what == "hf8" else case[2], (n, n),
                          kind if kind in ("int", "real", "complex") else "int")
            if what != "ptd":
                M = M + M.T
            M = M * {"big": 1000, "small": 1e-3}.get(kind, 1)
            A = M.copy() if what == "hf8" else ref.layouts(M)[case[4]]
            arg = A.tolist() if kind == "list" else A
            f = ff.pt if what == "ptd" else ff.hf
            got = f(arg)
            want = ref.minors(M.tolist(), False) if what == "ptd" else ref.hafnian(M.tolist())
            rec.check(abs(got - want) <= 1e-9 * abs(want) + 1e-15 * (1 if kind == "small" else 1e3),
                      "%s = %s, expected %s", what, got, want)
            rec.check(np.array_equal(A, M), "argument modified")
            if n in (2, 3, 4) and kind == "int":  # permuting indices keeps the value
                for p in itertools.permutations(range(n)):
                    rec.trans()
                    rec.trace()
                    q = np.array(p)
                    B = M[q] if what == "ptd" else M[np.ix_(q, q)]
                    rec.check(f(B) == got, "value changed under a permutation")
                if what == "ptd":
                    B = M.copy()
                    B[n - 1] *= -3
                    rec.check(f(B) == -3 * got, "not multilinear")
        else:
            n = case[1]
            A = np.arange(n * n).reshape(n, n)
            rec.check(ff.hf(A + A.T) == (1 if n == 0 else 0), "hf of size %d", n)


class Determinant(Space):
    rule = ("state = square matrix; transition = one elementary row operation with the predicted "
            "factor; trace = one pair of determinants compared with the expansion")

    def bounds(self, tier):
        return "all 2x2 over 5 values, all 3x3 over {-1,0,2}, all 4x4 0/1, dense to 9x9 (eigenvalue routine: 60x60), all row operations to 5x5"

    def shards(self, tier):
        out = [["dt78", 9, 0]] + [["dt78", n, s] for n in (8, 7) for s in range(1 if tier == "quick" else 4)]
        out += [["d4", r] for r in range(16)]
        return out + [["d3", r] for r in range(8)] + [["d2", 0], ["dd", 0], ["moves", 0], ["rect", 0]]

    def cases(self, shard, tier):
        what = shard[0]
        if what == "d2":
            for v in itertools.product(range(5), repeat=4):
                yield ["d2", list(v)]
        elif what == "d3":
            for i, v in enumerate(itertools.product((0, -1, 2), repeat=9)):
                if i % 8 == shard[1]:
                    yield ["d3", list(v)]
        elif what == "d4":
            for m in range(shard[1], 65536, 16):
                yield ["d4", m]
        elif what == "dd":
            for n in range(1, 7):
                for s in range(3):
                    for kind in ("int", "real", "complex", "big", "skew"):
                        for lay in ("C", "F", "strided", "readonly"):
                            if (n < 6 or lay == "C") and (kind != "big" or n < 5):
                                yield ["dd", n, s, kind, lay]
        elif what == "dt78":
            if shard[1] == 9:
                for n in (9, 10, 12, 16, 17, 20, 33, 60):
                    for k in ("int", "real", "complex"):
                        yield ["eig", n, k]
            for k in ("int", "real", "complex"):
                yield ["dd", shard[1], shard[2], k, "C"]
        elif what == "moves":
            for n in range(2, 6):
                for i, j in itertools.permutations(range(n), 2):
                    for mv in range(3):
                        yield ["move", n, i, j, mv]
        else:
            for n in range(1, 7):
                for d in WIDTHS:
                    yield ["wide", n, d]
                for k in range(len(POWERS)):
                    for t in range(2):
                        yield ["scaled", n, k, t]
            for a, b in itertools.permutations(range(1, 5), 2):
                yield ["rect", a, b]

    def run(self, case, rec):
        what = case[0]
        rec.state(case)
        rec.trans()
        rec.trace()
        if what == "eig":
            M = ref.dense(0, tuple(case[1:2] * 2), case[2])
            M = M / np.linalg.norm(M, axis=1, keepdims=True)
            want = np.linalg.det(M)
            for x in (M, np.asfortranarray(M)):
                got = ff.dt_eigen(x)
                rec.check(abs(got - want) < 1e-9 * max(1e-6, abs(want)) + 1e-6 * abs(want), "dt_eigen = %s, expected %s", got, want)
            return
        if what == "rect":
            rec.check(ff.dt_eigen(np.ones(case[1:])) is None, "non-square accepted")
            return
        if what == "scaled":  # scaling rows and columns by powers of two scales the value exactly
            n, k, t = case[1:]
            M = ref.dense(t, (n, n), "int")
            B, x = scaled(M.tolist(), k, False)
            got, want = ff.dt(np.array(B)), math.ldexp(ref.minors(M.tolist(), True), x)
            rec.check(got == want, "scaled by %s: dt = %s, expected %s", POWERS[k], got, want)
            return
        if what == "wide":
            rows, A = wide(case[1], case[2], "any")
            want = ref.minors(rows, True)
            got = [int(ff.dt(x)) for x in ((A, rows) if case[2] != "uint64" else (A, A))]
            rec.check(got == [want, want], "%s: dt = %s, expected %s", case[2], got, want)
            rec.check(A.tolist() == rows, "argument modified")
            return
        if what == "d2":
            A = np.array([[0, 1, -1, 1j, 2.5][x] for x in case[1]]).reshape(2, 2)
        elif what == "d3":
            A = np.array(case[1]).reshape(3, 3)
        elif what == "d4":
            A = np.array([case[1] >> k & 1 for k in range(16)]).reshape(4, 4)
        elif what == "dd":
            n, s, kind, lay = case[1:]
            A = ref.dense(s, (n, n), kind if kind in ("real", "complex") else "int")
            A = A * (1000 if kind == "big" else 1)
            if kind == "skew":
                A = A - A.T
            A = ref.layouts(A)[lay]
        else:
            n, i, j, mv = case[1:]
            A = ref.dense(2, (n, n), "int")
            B = A.copy()
            if mv == 0:
                B[[i, j]] = B[[j, i]]
                f = -1
            elif mv == 1:
                B[i] *= 3
                f = 3
            else:
                B[i] += 2 * B[j]
                f = 1
            rec.check(ff.dt(B) == f * ff.dt(A), "row operation changes dt wrongly")
            rec.check(ff.dt(A.T) == ff.dt(A), "transpose")
            rec.check(rel(ff.dt_eigen(B), f * ff.dt_eigen(A), 1e-6), "dt_eigen row operation")
        keep = A.copy()
        want = ref.minors(keep.tolist(), True)
        got = ff.dt(A)
        rec.check(abs(got - want) <= 1e-9 * abs(want) + 1e-12 * (1 if keep.dtype.kind != "i" else 0)
                  if keep.dtype.kind != "i" else got == want, "dt = %s, expected %s", got, want)
        rec.check(ff.dt(A.tolist()) == got, "dt of a list differs")
        ev = ff.dt_eigen(A)
        scale = max(1, np.prod(np.linalg.norm(keep.astype(complex), axis=1)))
        rec.check(abs(ev - want) <= 1e-7 * scale, "dt_eigen = %s, expected %s", ev, want)
        if keep.dtype.kind == "i":
            for T in (np.int8, np.uint8, bool, np.int32, np.float32):
                if np.array_equal(keep.astype(T), keep):
                    ev = ff.dt_eigen(keep.astype(T))
                    rec.check(abs(ev - want) <= (1e-3 if T is np.float32 else 1e-7) * scale,
                              "dt_eigen of %s = %s, expected %s", np.dtype(T), ev, want)
        rec.check(np.array_equal(A, keep), "argument modified")
        rec.outcome(str(want))


ITEMS = [[3, -1, 7, 10], [0.25, 0.5, 0.75, 1.0], [-0.3, -0.2, -0.1, 0.1], ["a", "b", "ba", "c"],
         [2**53, 2**53 + 1, 2**53 + 2, -1], [(0, 1), (0, 2), (1, 0), (1, 1)], [1e-9, 2e-9, 3e-9, 4e-9],
         [False, 2, 3, 10**30]]


RANGES = [lambda x: 2 * x, lambda x: x + 1, lambda x: x - 5, lambda x: x * x, lambda x: -3 + x / 7, lambda x: chr(65 + x),
          lambda x: np.int64(3 * x), lambda x: 10**x, lambda x: (0, x), lambda x: 1 + 1e-9 * x, lambda x: x + (x > 2)]


class PermutationSign(Space):
    rule = ("state = permutation; transition = one transposition (every pair), which must flip the "
            "sign; trace = one sign compared with the cycle-count formula")

    def bounds(self, tier):
        return "all permutations to length %d; all transpositions; 11 kinds of labels to length 12" % (7 if tier == "quick" else 8)

    def shards(self, tier):
        return [[n, k] for n in range(7 if tier == "quick" else 8, 0, -1)
                for k in (range(n) if n > 4 else [-1])] + [["other", 0]]

    def cases(self, shard, tier):
        n, k = shard
        if n == "other":
            yield ["empty"]
            for m in range(2, 13):
                yield ["long", m]
            for m in range(2, 13):
                for labels in range(len(RANGES)):
                    yield ["range", m, labels]
            for p in itertools.permutations(range(4)):
                for labels in range(len(ITEMS)):
                    yield ["labels", labels, list(p)]
            return
        for p in itertools.permutations(range(n)):
            if k == -1 or p[0] == k:
                yield ["p", list(p)]

    def run(self, case, rec):
        what = case[0]
        rec.state(case)
        if what == "empty":
            rec.trace()
            rec.trans()
            rec.check(ff.sgn([]) == 1, "empty permutation")
            return
        if what == "long":
            m = case[1]
            for p in ([*range(1, m), 0], [*range(m)][::-1], [m - 1, *range(1, m - 1), 0]):
                rec.trace()
                rec.trans()
                rec.check(ff.sgn(p) == ref.perm_sign(p), "sign of %s", p)
            return
        if what == "range":  # increasing labels of every kind, rearranged in several ways
            m, k = case[1:]
            for o in ([*range(m)], [*range(1, m), 0], [*range(m)][::-1], [m - 1, *range(1, m - 1), 0],
                      [*range(1, m, 2), *range(0, m, 2)], [*range(m - 2), m - 1, m - 2]):
                p = [RANGES[k](x) for x in o]
                rec.trace()
                rec.trans()
                rec.check(ff.sgn(p) == ref.perm_sign(o), "sign of %s", p)
            return
        if what == "labels":
            p = [ITEMS[case[1]][k] for k in case[2]]
        else:
            p = case[1]
        s = ff.sgn(p)
        rec.trace(3)
        rec.check(s == ref.perm_sign(p), "sgn(%s) = %s", p, s)
        rec.check(ff.sgn(tuple(p)) == s, "container changes the sign")
        if not any(isinstance(x, tuple) for x in p):
            rec.check(ff.sgn(np.array(p)) == s, "container changes the sign")
        for i, j in itertools.combinations(range(len(p)), 2):
            if len(p) > 5 and (i + j) % 3:
                continue
            q = list(p)
            q[i], q[j] = q[j], q[i]
            rec.trans()
            rec.check(ff.sgn(q) == -s, "transposition does not flip the sign")
        rec.outcome(s)
