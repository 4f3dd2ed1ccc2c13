"""reference for the per bit models of the decoders: window of samples -> distribution, entropy, confidence, llr"""
import math
import numpy as np
from hypothesis import strategies as st

EPS = np.finfo(float).eps


def thresholds(low=0.0):
    """entropy thresholds which no achievable entropy comes close to, and the two ends of the scale"""
    return st.one_of(st.sampled_from([0.3123457, 0.5123457, 0.7123457, 0.8765431, 0.9512347, 1.5, 0.0, 1.0]),
                     st.integers(1, 999).map(lambda i: i / 1000 + 1.234567e-4))


def h2(p):
    return np.array([0.0 if x <= 0 or x >= 1 else -x * math.log2(x) - (1 - x) * math.log2(1 - x) for x in p])


def structural(ent, p1, thr):
    """mask of low entropy bits; None where rounding would decide"""
    out = ent < thr
    near = np.abs(ent - thr) < 1e-9
    if thr == 0.0:
        near &= ~((p1 == 0) | (p1 == 1))
        out[(p1 == 0) | (p1 == 1)] = False
    if thr == 1.0:
        near &= ~(p1 == 0.5)
        out[p1 == 0.5] = False
    return None if near.any() else out


def confidence(size, center, slope):
    if size <= 1:
        return 0.0
    e = -(size - center) * slope
    return 0.0 if e > 700 else 1 / (1 + math.exp(e))


class BitModel:
    def __init__(self, window=None, flip=0.0):
        self.window, self.flip = window, flip
        self.samples = []

    def add(self, bits):
        self.samples.append(np.array(bits, dtype=int))
        if self.window is not None:
            del self.samples[:-self.window]

    @property
    def size(self):
        return len(self.samples)

    @property
    def p1(self):
        n = len(self.samples)
        ones = np.sum(self.samples, axis=0)
        if self.flip == 0:
            return ones / n
        return np.clip((ones / n - self.flip) / (1 - 2 * self.flip), 0, 1)

    @property
    def distribution(self):
        p1 = self.p1
        return np.column_stack((1 - p1, p1))

    def structural(self, thr):
        p1 = self.p1
        return structural(h2(p1), p1, thr)

    def llr(self):
        p1 = self.p1
        return np.log((EPS + 1 - p1) / (p1 + EPS))
