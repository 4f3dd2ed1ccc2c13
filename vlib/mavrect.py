"""reference for rectification by a model of MAVLink fields"""
import numpy as np
from vlib import bitref, gens, stub

D = gens.DIALECT


class Ambiguous(Exception):
    """floating point rounding decides the expected answer"""


def as_bytes(bits):
    n = len(bits) // 8
    return np.packbits(np.asarray(bits[:8 * n], dtype=np.uint8)).tobytes()


class FieldStates:
    """probability, spread and mean bits of every field of a layout, given a received word"""

    def __init__(self, model, layout, hard):
        from checks.c08 import named_atoms
        data = as_bytes(hard)
        n = 8 * len(data)
        self.p = np.full(n, np.nan)
        self.constant = np.zeros(n, dtype=bool)
        self.mean = np.zeros(n, dtype=int)
        self.field_p = []
        self.spans = []
        names, atoms = named_atoms(layout, len(data))
        for name, (_, typ, first, width, _), val in zip(names, atoms, gens.atom_values(atoms, data)):
            self.spans.append((first, width))
            if name not in model.fields:
                self.field_p.append(np.nan)
                continue
            st = model.stats(name)
            p = st.probability(val) if st.n else None
            if p is None:
                raise Ambiguous()
            self.field_p.append(p)
            self.p[first:first + width] = p
            if st.constant:
                bits = st.bits(typ)
                if bits is None:
                    raise Ambiguous()
                self.constant[first:first + width] = True
                self.mean[first:first + width] = bits

    def above(self, thr):
        p = np.array(self.field_p)
        if thr < 1 and np.any(np.abs(p - thr) < 1e-6):
            raise Ambiguous()
        return self.p > thr, [i for i, x in enumerate(self.field_p) if x > thr]

    def below(self, thr):
        p = np.array(self.field_p)
        if thr > 0 and np.any(np.abs(p - thr) < 1e-6):
            raise Ambiguous()
        return self.p < thr, [i for i, x in enumerate(self.field_p) if x < thr]

    def damaged(self, errors):
        return sorted({i for e in errors for i, (a, w) in enumerate(self.spans) if a <= e < a + w})


def factors(case, size, learning):
    if not learning:
        return case["vf"], case["inf"]
    c = bitref.confidence(size, case["center"], case["slope"])
    return (case["vf"] - 1) * c + 1, (case["inf"] - 1) * c + 1


def covered(bits):
    """mask of the bits which lie in a complete valid message"""
    data = np.packbits(np.asarray(bits, dtype=np.uint8)).tobytes()
    out = np.zeros(len(bits), dtype=bool)
    for start, _, end in D.segment(data):
        out[8 * start:8 * end] = True
    return out


def promote(obs, want, k, vf):
    """bits of messages which are found in the word, or else in the rectified word, count twice"""
    found = covered(obs[:k] < 0)
    if found.any():
        want[:k][found] = obs[:k][found] * 2 * vf
    else:
        if np.any(np.abs(want[:k]) < 1e-12):
            raise Ambiguous()
        found = covered(want[:k] < 0)
        want[:k][found] *= 2
    return np.concatenate((found, np.zeros(len(obs) - k, dtype=bool)))


def confusion(pred, actual, negative):
    pred, actual = set(pred), set(actual)
    fp = len(pred - actual)
    return [len(pred & actual), fp, negative - fp, len(actual - pred), len(actual), negative]
