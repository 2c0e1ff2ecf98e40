"""Stand-in for the `stim` sampler, which is not installed here.

`Tableau.random(n)` returns a tableau of the explorer's choosing, so that every
outcome of the external sampler can be enumerated (`CHOICE` is set per case).
"""
import numpy as np

CHOICE = None
CALLS = []


class Tableau:
    def __init__(self, n, vec):
        self.n, self.vec = n, vec

    @staticmethod
    def random(num_qubits):
        CALLS.append(num_qubits)
        return Tableau(num_qubits, CHOICE)

    def to_state_vector(self, *, endian="little"):
        v = np.asarray(self.vec, dtype=np.complex64)
        if endian == "big" and self.n:
            v = v.reshape((2,) * self.n).transpose().ravel()
        return v
