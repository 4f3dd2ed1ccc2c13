"""C06: Hamming distances and the closest valid header"""
import numpy as np
from hypothesis import strategies as st
from vlib import gens
from vlib.core import Sub, check
from protocol_meta import hamming_distance_2_valid_header
from protocol_meta.msg_header import HeaderLength
from utils.bit_operations import hamming_distance
import bitstring

D = gens.DIALECT


def pop(a, b):
    return bin(a ^ b).count("1")


def nearest(buf, max_len):
    cands = [(pop(m.declared, buf[1]) + pop(m.id, buf[5]), m.id) for m in D.messages.values()
             if max_len is None or m.declared <= max_len]
    if not cands:
        return None, set()
    best = min(c[0] for c in cands)
    return best + pop(0xFE, buf[0]), {c[1] for c in cands if c[0] == best}


def run_nearest(case, info):
    buf = bytes.fromhex(case["buf"])
    max_len = case["max_len"]
    want, ids = nearest(buf, max_len)
    args = (buf,) if max_len is None else (buf, max_len)
    dist, mid = hamming_distance_2_valid_header(*args)
    if not ids:
        check(mid not in D.messages, "message %d is longer than %d", mid, max_len)
        info.label("none fits")
        return
    check(dist == want, "distance %s, the closest header is at %d", dist, want)
    check(mid in ids, "message %s chosen, the closest are %s", mid, sorted(ids))
    info.label("distance:%s" % min(want, 5), *(["limited"] if max_len is not None else []))
    info.mark(want > 0 or max_len is not None)


def run_length(case, info):
    try:
        hamming_distance_2_valid_header(bytes(case))
    except HeaderLength:
        info.mark()
        return
    check(case == 6, "a header of %d bytes was accepted", case)


@st.composite
def damaged_headers(draw):
    mid = draw(st.sampled_from(gens.IDS))
    h = bytearray([0xFE, D.messages[mid].declared, draw(gens.byte), draw(gens.byte), draw(gens.byte), mid])
    for b in draw(st.lists(st.one_of(st.integers(0, 15), st.integers(40, 47), st.integers(0, 47)), max_size=6)):
        h[b // 8] ^= 0x80 >> (b % 8)
    lim = draw(st.one_of(st.none(), st.integers(0, 260), st.integers(-3, 3).map(lambda d: D.messages[mid].declared + d)))
    return {"buf": bytes(h).hex(), "max_len": lim}


@st.composite
def far_headers(draw):
    """as far from the shortest messages as possible, and not many messages are allowed"""
    mid = draw(st.sampled_from(sorted(D.messages, key=lambda i: D.messages[i].declared)[:12]))
    size = D.messages[mid].declared
    h = bytearray([0x01, size ^ 0xFF, 0, 0, 0, mid ^ 0xFF])
    for b in draw(st.lists(st.one_of(st.integers(8, 15), st.integers(40, 47)), max_size=2)):
        h[b // 8] ^= 0x80 >> (b % 8)
    return {"buf": bytes(h).hex(), "max_len": size + draw(st.integers(0, 2))}


def build(kind, value, n):
    if kind == "bytes":
        return value.to_bytes(n // 8, "big")
    if kind == "int":
        return value
    return bitstring.Bits(uint=value, length=n)


def run_distance(case, info):
    n = case["bits"]
    a, b = case["a"] % (1 << n), case["b"] % (1 << n)
    ka, kb = case["ka"], case["kb"]
    if n % 8 and "bytes" in (ka, kb):
        return
    x, y = build(ka, a, n), build(kb, b, n)
    want = pop(a, b)
    got = hamming_distance(x, y, n) if "int" in (ka, kb) and n != 8 else hamming_distance(x, y)
    check(got == want, "distance of %s %x and %s %x is %s, expected %d", ka, a, kb, b, got, want)
    check(isinstance(got, int), "distance is a %s", type(got).__name__)
    back = hamming_distance(y, x, n) if "int" in (ka, kb) and n != 8 else hamming_distance(y, x)
    check(back == want, "distance isn't symmetric")
    info.label(ka + "/" + kb)
    info.mark(a != b)


def run_arrays(case, info):
    a, b = np.array(case["a"], dtype=np.int_), np.array(case["b"][:len(case["a"])], dtype=np.int_)
    b = np.resize(b, a.shape) if b.size else np.zeros_like(a)
    want = int(np.sum(a != b))
    check(hamming_distance(a, b) == want, "distance of bit arrays is %s, expected %d", hamming_distance(a, b), want)
    check(hamming_distance(bitstring.Bits(a.tolist()), b) == want, "distance of a bit string and a bit array")
    info.mark(want > 0)


def run_long(case, info):
    """values as long as the buffers of the link and longer"""
    rs = np.random.RandomState(case["seed"])
    a = rs.randint(0, 2, 8 * case["bytes"])
    b = (a ^ (rs.random_sample(a.size) < case["noise"])).astype(a.dtype)
    b[-1] = 1 - a[-1] if case["seed"] % 2 else a[-1]
    want = int(np.sum(a != b))
    forms = {"array": lambda v: v.astype(case["dtype"]), "bytes": lambda v: np.packbits(v.astype(np.uint8)).tobytes(),
             "Bits": lambda v: bitstring.Bits(bytes=np.packbits(v.astype(np.uint8)).tobytes())}
    x, y = forms[case["ka"]](a), forms[case["kb"]](b)
    got, back = hamming_distance(x, y), hamming_distance(y, x)
    check(got == back == want, "distance of %d bits is %s and %s the other way, expected %d", a.size, got, back, want)
    info.label(case["ka"] + "/" + case["kb"])
    info.mark(want > 0)


def run_triangle(case, info):
    a, b, c = (bytes.fromhex(case[k]) for k in "abc")
    ab, bc, ac = hamming_distance(a, b), hamming_distance(b, c), hamming_distance(a, c)
    check(ac <= ab + bc and (ab == 0) == (a == b), "not a metric: %s %s %s", ab, bc, ac)
    info.mark(len({a, b, c}) == 3)


ODD = {"float": 1.0, "None": None, "list": [0, 1], "text": "0b1", "tuple": (1, 0)}


def run_types(case, info):
    """neither a number, bytes, bit string nor array of bits"""
    good = build(case["kind"], 0x5A, 8)
    for a, b in ((good, ODD[case["odd"]]), (ODD[case["odd"]], good), (ODD[case["odd"]], ODD[case["odd"]])):
        try:
            got = hamming_distance(a, b)
        except Exception:
            info.mark()
        else:
            check(False, "the distance of %r and %r is %s", a, b, got)


def probes():
    return (("array-length", lambda: gens.probe_array("nearest")),)


def subs():
    b6 = st.binary(min_size=6, max_size=6).map(lambda b: b.hex())
    kinds = st.sampled_from(["bytes", "int", "Bits"])
    bit = st.lists(st.integers(0, 1), min_size=1, max_size=40)
    return [
        Sub("nearest", lambda: st.one_of(damaged_headers(), damaged_headers(), far_headers(), st.fixed_dictionaries({
            "buf": b6, "max_len": st.one_of(st.none(), st.integers(0, 260))})), run_nearest,
            "headers with 0-6 bit errors or far from every message, with and without a length limit; non-trivial when damaged or limited", 2400),
        Sub("length", lambda: st.integers(0, 12), run_length, "wrong header lengths", 40, 40),
        Sub("distance", lambda: st.fixed_dictionaries({
            "bits": st.sampled_from([8, 8, 16, 24, 32, 64, 5, 13]), "a": st.integers(0, 2 ** 64 - 1),
            "b": st.integers(0, 2 ** 64 - 1), "ka": kinds, "kb": kinds}), run_distance,
            "pairs of integers, bytes and bit strings in every combination; non-trivial when they differ", 2400),
        Sub("arrays", lambda: st.fixed_dictionaries({"a": bit, "b": bit}), run_arrays,
            "pairs of bit arrays; non-trivial when they differ", 1000),
        Sub("long", lambda: st.fixed_dictionaries({
            "bytes": st.sampled_from([3, 40, 130, 600, 4000, 12000]), "seed": st.integers(0, 2 ** 16), "noise": st.sampled_from([0, 0.01, 0.3, 1]),
            "ka": st.sampled_from(["array", "bytes", "Bits"]), "kb": st.sampled_from(["array", "bytes", "Bits"]),
            "dtype": st.sampled_from(["int64", "uint8", "bool", "int32"])}), run_long,
            "values of up to 96000 bits in every combination; non-trivial when they differ", 200, 2000),
        Sub("types", lambda: st.fixed_dictionaries({"kind": kinds, "odd": st.sampled_from(sorted(ODD))}), run_types,
            "values of unsupported types are refused", 60, 60),
        Sub("metric", lambda: st.fixed_dictionaries({"a": b6, "b": b6, "c": b6}), run_triangle,
            "triples of buffers; non-trivial when all differ", 600),
    ]
