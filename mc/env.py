"""The random words the library sees, decided by the explorer.

NumPy's global generator and Python's `random` are Mersenne twisters whose state *is* their next 624
outputs up to an invertible map, so any sequence of 32-bit words can be made their next outputs.
A stream is a generic base stream with a few words ("deviations") replaced by chosen values.
"""

import functools
import itertools
import random

import numpy as np

# Values of a uniform double in [0, 1): near both ends, near the middle (where Gaussians are small), between.
# Exact 0 and 1/2 are left out: they make a Gaussian exactly 0 or all weights of a distribution 0, for which
# NumPy's and SciPy's own samplers are undefined (probability 2^-53).
VALUES = [2.0**-30, 1 - 2.0**-30, 0.5 + 2.0**-20, 0.5 - 2.0**-11, 0.25, 0.75]


def untemper(y):
    y ^= y >> 18
    y ^= (y << 15) & 0xEFC60000
    x = y
    for _ in range(5):
        x = y ^ ((x << 7) & 0x9D2C5680)
    y = x & 0xFFFFFFFF
    x = y
    for _ in range(3):
        x = y ^ (x >> 11)
    return x & 0xFFFFFFFF


@functools.lru_cache(None)
def base_words(b):
    g = np.random.RandomState(777 + b)
    return tuple(int(x) for x in g.randint(0, 2**32, 624, dtype=np.uint32))


def as_words(v):
    k = int(v * 2.0**53)
    return (k >> 26) << 5, (k & (2**26 - 1)) << 6


@functools.lru_cache(None)
def base_key(b):
    return np.array([untemper(x) for x in base_words(b)], dtype=np.uint32)


def key(b, changed):
    """Generator state whose next outputs are base stream b with some words replaced."""
    k = base_key(b).copy()
    for p, w in changed.items():
        k[p] = untemper(w)
    return k


def doubles(b, devs):
    """Base stream b with the p-th double replaced by VALUES[v] for (p, v) in devs."""
    ch = {}
    for p, v in devs:
        ch[2 * p], ch[2 * p + 1] = as_words(VALUES[v])
    return key(b, ch)


def nibbles(b, vs):
    """Base stream b that starts with one word for each v, all of whose hexadecimal digits are v."""
    return key(b, {p: v * 0x11111111 for p, v in enumerate(vs)})


def set_numpy(k):
    np.random.set_state(("MT19937", k, 0, 0, 0.0))


def set_python(k):
    random.setstate((3, tuple(k.tolist()) + (0,), None))


def deviations(npos, nval, pairs):
    """No deviation, every single one, and (if asked) every pair."""
    yield []
    for p in range(npos):
        for v in range(nval):
            yield [[p, v]]
    if pairs:
        for p, q in itertools.combinations(range(npos), 2):
            for v in range(nval):
                for u in range(nval):
                    yield [[p, v], [q, u]]


def prefixes(k, nval):
    """Every choice of the first k answers."""
    for vs in itertools.product(range(nval), repeat=k):
        yield [[p, v] for p, v in enumerate(vs)]


def selftest():
    """The library really receives the chosen words."""
    k = doubles(0, [(1, 2), (3, 0)])
    set_numpy(k)
    x = np.random.random_sample(4)
    set_python(k)
    y = [random.random() for _ in range(4)]
    set_python(nibbles(0, [5, 9]))
    z = [random.getrandbits(4), random.getrandbits(32)]
    return x[1] == y[1] == VALUES[2] and x[3] == y[3] == VALUES[0] and z == [5, 0x99999999]
