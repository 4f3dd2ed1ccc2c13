"""reference for the gaussian field model: window of samples -> mean, std, probability of a value, bits of the mean"""
import math
import struct

SIZE = {"uint64_t": 8, "int64_t": 8, "double": 8, "uint32_t": 4, "int32_t": 4, "float": 4, "uint16_t": 2, "int16_t": 2,
        "uint8_t": 1, "int8_t": 1, "char": 1}
INT_FMT = {"uint64_t": "<Q", "int64_t": "<q", "uint32_t": "<I", "int32_t": "<i", "uint16_t": "<H", "int16_t": "<h",
           "uint8_t": "<B", "int8_t": "<b"}


def exact(x):
    """a double sums exactly with itself thousands of times"""
    if isinstance(x, int):
        return abs(x) < 2 ** 40
    return struct.unpack("<f", struct.pack("<f", x))[0] == x if math.isfinite(x) and abs(x) < 3e38 else False


def finite(samples):
    return [s for s in samples if not isinstance(s, float) or math.isfinite(s)]


class Stats:
    """mean and std of the finite samples, in exact arithmetic where it matters"""

    def __init__(self, samples):
        xs = finite(samples)
        self.n = len(xs)
        self.scale = max([abs(float(x)) for x in xs], default=0.0)
        if not xs:
            self.mean = self.std = 0.0
            self.constant = self.sharp = True
            return
        self.constant = all(x == xs[0] for x in xs)
        if self.constant:
            self.mean, self.std = float(xs[0]), 0.0
            self.sharp = exact(xs[0])
        else:
            from fractions import Fraction
            fs = [Fraction(x) for x in xs]
            m = sum(fs) / len(fs)
            v = sum((f - m) ** 2 for f in fs) / len(fs)
            self.mean = float(m)
            self.std = math.sqrt(v) if v < Fraction(10) ** 300 else float("inf")
            self.sharp = self.std > 1e-6 * self.scale and self.std < 1e150 and self.std > 1e-150

    def close_mean(self, got):
        return abs(float(got) - self.mean) <= (0.0 if self.constant and self.sharp else 1e-9 * self.scale)

    def close_std(self, got):
        if self.constant and self.sharp:
            return float(got) == 0.0
        return abs(float(got) - self.std) <= 1e-7 * self.scale + 1e-9 * self.std

    def probability(self, value):
        """probability of value being no outlier, or None where rounding decides"""
        if not self.sharp:
            return None
        if self.std == 0:
            return 1.0 if value == self.mean else 0.0
        if isinstance(value, float) and math.isnan(value):
            return None
        if isinstance(value, float) and math.isinf(value):
            return 0.0
        return math.erfc(abs(self.mean - value) / self.std / math.sqrt(2))

    def bits(self, typ):
        """bits of the mean in the field's representation, or None where rounding decides"""
        if not self.sharp:
            return None
        return num_bits(self.mean, typ, 0.0 if self.constant else max(1e-12 * self.scale, 1e-300))


def to_bits(data):
    return [b >> (7 - i) & 1 for b in data for i in range(8)]


def num_bits(num, typ, slack=0.0):
    if typ in ("float", "double"):
        fmt = "<f" if typ == "float" else "<d"
        try:
            a, b = struct.pack(fmt, num - slack), struct.pack(fmt, num + slack)
        except OverflowError:
            return None
        return to_bits(struct.pack(fmt, num)) if a == b else None
    if typ == "char":
        return to_bits(bytes([ord(num)]))
    width = 8 * SIZE[typ]
    lo, hi = (0, 2 ** width - 1) if typ.startswith("u") else (-2 ** (width - 1), 2 ** (width - 1) - 1)

    def rnd(x):
        f = math.floor(x)
        d = x - f
        if d == 0.5:
            return None
        return min(max(f if d < 0.5 else f + 1, lo), hi)
    vals = {rnd(num), rnd(num - slack), rnd(num + slack)}
    if len(vals) > 1 or None in vals:
        return None
    return to_bits(struct.pack(INT_FMT[typ], vals.pop()))
