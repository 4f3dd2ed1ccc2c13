"""C07: field models describe the window of samples they were given"""
import math
import random
import struct
from hypothesis import strategies as st
from vlib import fieldref
from vlib.core import Sub, check
from inference import FieldModel
from inference.statistical_models import num2bits
from protocol_meta import field_lengths

TYPES = ["uint8_t", "int8_t", "uint16_t", "int16_t", "uint32_t", "int32_t", "uint64_t", "int64_t", "float"]
RANGE = {t: ((0, 2 ** (8 * fieldref.SIZE[t]) - 1) if t[0] == "u" else
             (-2 ** (8 * fieldref.SIZE[t] - 1), 2 ** (8 * fieldref.SIZE[t] - 1) - 1)) for t in TYPES if t != "float"}
ASSUMPTIONS = ["values at which floating point rounding decides (half way between integers, 64 bit values beyond the "
               "precision of a double, spread below 1e-6 of the magnitude) are compared up to that rounding only"]


def f32(x):
    return struct.unpack("<f", struct.pack("<f", x))[0]


def sample(typ):
    if typ == "float":
        return st.one_of(st.floats(-1000, 1000, width=32), st.floats(width=32),
                         st.sampled_from([0.0, -1.5, float("nan"), float("inf"), float("-inf"), 3.25]))
    lo, hi = RANGE[typ]
    return st.one_of(st.integers(max(lo, -9), min(hi, 9)), st.integers(lo, hi), st.sampled_from([lo, hi]))


def enc(x):
    return x.hex() if isinstance(x, float) else x


def dec(x):
    return float.fromhex(x) if isinstance(x, str) else x


@st.composite
def histories(draw):
    typ = draw(st.sampled_from(TYPES))
    window = draw(st.one_of(st.none(), st.integers(1, 6)))
    pool = draw(st.lists(sample(typ), min_size=1, max_size=3))
    s = st.one_of(st.sampled_from(pool), sample(typ))
    ops = []
    for _ in range(draw(st.integers(0, 14))):
        kind = draw(st.sampled_from(["add", "add", "add", "many", "ask"]))
        if kind == "add":
            ops.append(["add", enc(draw(s))])
        elif kind == "many":
            ops.append(["many", [enc(x) for x in draw(st.lists(s, max_size=9))]])
        else:
            ops.append(["ask", enc(draw(s))])
    ops.append(["ask", enc(draw(s))])
    return {"type": typ, "window": window, "ops": ops}


def ask_mean(m, stats, v, typ):
    check(stats.close_mean(m.mean), "mean %r, expected %r", m.mean, stats.mean)


def ask_std(m, stats, v, typ):
    check(stats.close_std(m.std), "std %r, expected %r", m.std, stats.std)


def ask_probability(m, stats, v, typ):
    p = stats.probability(v)
    if p is not None:
        got, std = m.classify_value(v)
        check(abs(float(got) - p) < 1e-6, "probability of %r is %r, expected %r (mean %r std %r)", v, got, p, stats.mean,
              stats.std)
        check(0 <= got <= 1, "probability %r", got)
        check(stats.close_std(std), "std %r, expected %r", std, stats.std)


def z_of(stats, v):
    return (v - stats.mean) / stats.std if stats.sharp and stats.std > 0 and math.isfinite(v) else None


def ask_cdf(m, stats, v, typ):
    z = z_of(stats, v)
    if z is not None:
        cdf = 0.5 * math.erfc(-z / math.sqrt(2))
        check(abs(float(m.cdf(v)) - cdf) < 1e-6, "cdf(%r) is %r, expected %r", v, m.cdf(v), cdf)


def ask_pdf(m, stats, v, typ):
    z = z_of(stats, v)
    if z is not None:
        pdf = math.exp(-z * z / 2) / math.sqrt(2 * math.pi)
        check(abs(float(m.pdf(v)) * stats.std - pdf) < 1e-6, "pdf(%r) is %r", v, m.pdf(v))


def ask_bits(m, stats, v, typ):
    want = stats.bits(typ)
    if want is not None:
        check([int(b) for b in m.bitwise_mean()] == want, "bits of the mean %s, expected %s", list(m.bitwise_mean()), want)


QUESTIONS = [ask_mean, ask_std, ask_probability, ask_cdf, ask_pdf, ask_bits]


def run_history(case, info):
    m = FieldModel("f", case["type"], case["window"])
    check(m.field_type == case["type"] and m.field_len == fieldref.SIZE[case["type"]], "type or length")
    samples = []
    ever = False
    asked = 0
    for op, arg in case["ops"]:
        if op == "add":
            m.add_sample(dec(arg))
            samples.append(dec(arg))
        elif op == "many":
            m.add_sample([dec(x) for x in arg])
            samples += [dec(x) for x in arg]
        if op != "ask":
            if case["window"] is not None:
                samples = samples[-case["window"]:] if samples else samples
            ever = ever or bool(fieldref.finite(samples))
            check(m.model_size == len(samples), "size %s after %d samples in the window", m.model_size, len(samples))
            continue
        stats = fieldref.Stats(samples)
        if stats.n == 0 and ever:
            continue  # every finite sample left the window: nothing to describe
        # whatever is asked first: nothing may depend on what was asked before
        questions = QUESTIONS[:2] if stats.n == 0 else QUESTIONS
        for k in range(len(questions)):
            questions[(k + asked + len(samples)) % len(questions)](m, stats, dec(arg), case["type"])
        asked += 1
        if stats.n == 0:
            continue
        info.label("constant" if stats.constant else "spread", case["type"])
        if case["window"] is not None and len(samples) == case["window"]:
            info.label("full window")
        info.mark(stats.n > 1)


@st.composite
def long_histories(draw):
    typ = draw(st.sampled_from(TYPES))
    return {"type": typ, "window": draw(st.sampled_from([None, None, 7, 16, 50, 100, 200])), "n": draw(st.one_of(st.integers(20, 400), st.integers(20, 400), st.integers(20, 400), st.sampled_from([700, 1300, 3000]))),
            "pool": [enc(x) for x in draw(st.lists(sample(typ), min_size=1, max_size=6))], "mix": draw(st.integers(0, 2 ** 16)),
            "drift": draw(st.sampled_from([0, 0, 1, 3]))}


def run_long(case, info):
    """hundreds of samples around drawn ones, drifting, asked about now and then"""
    rnd = random.Random(case["mix"])
    lo, hi = RANGE.get(case["type"], (None, None))

    def one(i):
        v = dec(rnd.choice(case["pool"])) + (case["drift"] * (i // 3) if case["drift"] else 0)
        if case["type"] == "float":
            try:
                return f32(v)
            except OverflowError:
                return 0.0
        return min(max(v, lo), hi)
    ops = []
    i = 0
    while i < case["n"]:
        k = rnd.choice([1, 1, 1, 5, 30])
        ops.append(["add", enc(one(i))] if k == 1 else ["many", [enc(one(i + j)) for j in range(k)]])
        i += k
        if rnd.random() < min(0.1, 60 / case["n"]):
            ops.append(["ask", enc(one(i))])
    ops.append(["ask", enc(one(i))])
    run_history({"type": case["type"], "window": case["window"], "ops": ops}, info)


def run_bits(case, info):
    typ = case["type"]
    num = dec(case["num"])
    if typ == "float":
        num = f32(num)
    want = fieldref.num_bits(num, typ)
    if want is None:
        return
    got = num2bits(num, typ)
    check([int(b) for b in got] == want, "%r as %s is %s, expected %s", num, typ, [int(b) for b in got], want)
    check(len(got) == 8 * field_lengths[typ], "%d bits", len(got))
    if typ != "char" and typ != "float":
        lo, hi = RANGE[typ]
        info.label("saturated" if not lo <= num <= hi else "in range", typ)
    else:
        info.label(typ)
    info.mark()


@st.composite
def numbers(draw):
    typ = draw(st.sampled_from(TYPES + ["char"]))
    if typ == "char":
        return {"type": typ, "num": draw(st.integers(0, 255))}
    if typ == "float":
        return {"type": typ, "num": enc(draw(st.floats(width=32, allow_nan=False)))}
    lo, hi = RANGE[typ]
    num = draw(st.one_of(st.integers(lo, hi), st.integers(lo - 300, hi + 300),
                         st.floats(-1e5, 1e5), st.floats(float(lo), float(hi)), st.floats(-1e25, 1e25),
                         st.sampled_from([lo, hi, lo - 1, hi + 1, 0, 1, -1])))
    return {"type": typ, "num": enc(num)}


def run_number(case, info):
    if case["type"] == "char":
        got = num2bits(chr(case["num"]), "char")
        check([int(b) for b in got] == fieldref.to_bits(bytes([case["num"]])), "bits of character %d", case["num"])
        info.label("char")
        info.mark()
        return
    run_bits(case, info)


def run_sign(case, info):
    """an unsupported type is refused"""
    try:
        FieldModel("x", case)
    except ValueError:
        check(case not in field_lengths, "%s was refused", case)
        info.mark()
        return
    check(case in field_lengths, "%s was accepted", case)


def subs():
    return [
        Sub("history", histories, run_history,
            "histories of samples (single and lists, non-finite ones included) and questions under a window; non-trivial when "
            "asked with at least two finite samples", 8000),
        Sub("long", long_histories, run_long, "histories of up to 3000 drifting samples, windows up to 200; same rule", 240, 4800),
        Sub("bits", numbers, run_number, "numbers in and out of range as bits of every field type; every case is non-trivial",
            5000),
        Sub("types", lambda: st.one_of(st.sampled_from(sorted(field_lengths) + ["uint128_t", "int", "", "floaty", "bool"]),
                                       st.text(max_size=5)), run_sign, "field types, known and unknown", 300, 600),
    ]
