"""C01: segmentation finds exactly the MAVLink messages which are in a buffer"""
import random
from vlib import gens, mavref
from vlib.core import Sub, check
from hypothesis import strategies as st
from inference import BufferSegmentation, MsgParts
from protocol_meta import dialect_meta

D = gens.DIALECT
ASSUMPTIONS = ["HC_dialect.xml defines the dialect; MAVLink v1 framing and CRC are re-implemented from the MAVLink rules"]


def expected(buf):
    labels = [MsgParts.UNKNOWN] * len(buf)
    structure = {}
    for start, m, end in D.segment(buf):
        structure[start] = m.id
        for i in range(start, end):
            labels[i] = (MsgParts.HEADER if i < start + 6 else MsgParts.CHECKSUM if i >= end - 2 else MsgParts.PAYLOAD)
    return labels, structure


def compare(buf, seg=None, spoil=False):
    if D.unclaimed(buf):
        return [], {}
    labels, structure = expected(buf)
    seg = seg or BufferSegmentation(dialect_meta.protocol_parser)
    keep = bytes(buf)
    parts, validity, found = seg.segment_buffer(buf)
    check(buf == keep, "the buffer was modified")
    check(dict(found) == structure, "messages found %s, expected %s", dict(found), structure)
    check(list(found) == sorted(found), "messages are not in the order of the buffer: %s", list(found))
    check(len(parts) == len(buf), "one label per byte: %d for %d bytes", len(parts), len(buf))
    check(list(parts) == labels, "labels %s, expected %s", [p.name for p in parts], [p.name for p in labels])
    check(len(validity) == 8 * len(buf), "one validity per bit: %d for %d bytes", len(validity), len(buf))
    want = [0.0 if p is MsgParts.UNKNOWN else 1.0 for p in labels for _ in range(8)]
    check([float(v) for v in validity] == want, "bit validity doesn't match the messages found")
    again = seg.get_buffer_structure(buf)
    check(again == structure and len(again) == len(structure), "buffer structure %s, expected %s", str(again), structure)
    if spoil and len(buf):  # what the caller does with a result is the caller's business
        parts[:] = MsgParts.UNKNOWN
        validity[:] = 0.5
        found.clear()
    return labels, structure


def run_parts(case, info):
    buf = gens.buffer_bytes(case)
    labels, structure = compare(buf)
    kinds = {p["kind"] for p in case}
    info.label(*["part:" + k for k in kinds])
    info.label("messages:%d" % min(len(structure), 4))
    info.mark(bool(structure) or bool(kinds & {"flip", "trunc", "badlen", "badid", "wrongseed", "v2", "swap"}))


def run_reuse(case, info):
    """one segmentation object for many buffers: cut short, repeated and damaged versions of each other"""
    seg = BufferSegmentation(dialect_meta.protocol_parser)
    total = 0
    for which, cut, flip in case["visits"]:
        buf = bytearray(gens.buffer_bytes(case["bufs"][which % len(case["bufs"])]))
        buf = buf[:max(0, len(buf) - cut)]
        if flip and buf:
            buf[flip % len(buf)] ^= 0x10
        total += len(compare(bytes(buf), seg, spoil=True)[1])
    info.label("messages:%d" % min(total, 4))
    info.mark(total > 1)


def run_splice(case, info):
    """one valid message, cut into two and glued at any place of another: every offset of a frame in a buffer"""
    a = gens.frame_bytes(case["a"])
    b = gens.frame_bytes(case["b"])
    cut = case["cut"] % (len(a) + 1)
    buf = bytes.fromhex(case["pre"]) + a[:cut] + b + a[cut:] + bytes.fromhex(case["post"])
    _, structure = compare(buf)
    info.label("messages:%d" % min(len(structure), 4), "cut:%s" % ("edge" if cut in (0, len(a)) else "inside"))
    info.mark(bool(structure))


def run_bits(case, info):
    """a message with bit errors is never reported, unless the checksum cannot see them (the oracle tells)"""
    data = bytearray(gens.frame_bytes(case["f"]))
    for b in case["bits"]:
        b %= 8 * len(data)
        data[b // 8] ^= 0x80 >> (b % 8)
    _, structure = compare(bytes(data))
    changed = bytes(data) != gens.frame_bytes(case["f"])
    if changed and len(set(b % (8 * len(data)) for b in case["bits"])) <= 2:
        check(0 not in structure, "a message with up to two bit errors was accepted")
    info.mark(changed)


def run_long(case, info):
    """a recording: the parts again and again in a shuffled order, with noise in between"""
    rnd = random.Random(case["mix"])
    pieces = [gens.part_bytes(p) for p in case["parts"]]
    buf = bytearray()
    for _ in range(case["n"]):
        buf += rnd.choice(pieces)
        if rnd.random() < 0.2:
            buf += bytes(rnd.choice([0, 0xFE, rnd.randrange(256)]) for _ in range(rnd.randrange(40)))
    _, structure = compare(bytes(buf[:case["limit"]]))
    info.label("messages:%d0s" % (len(structure) // 10))
    info.mark(len(structure) > 10)


def hexes(n):
    return st.binary(max_size=n).map(lambda b: b.hex())


def probes():
    return (("array-length", lambda: gens.probe_array("segment")),)


def subs():
    return [
        Sub("parts", lambda: gens.buffers(6), run_parts,
            "buffer assembled from valid, damaged, truncated, relabelled and nested frames and noise; non-trivial when it "
            "holds a valid message or a near miss", 6000),
        Sub("reuse", lambda: st.fixed_dictionaries({
            "bufs": st.lists(gens.buffers(3), min_size=1, max_size=3),
            "visits": st.lists(st.tuples(st.integers(0, 2), st.sampled_from([0, 0, 0, 1, 2, 9]), st.sampled_from([0, 0, 0, 3, 11, 40])
                                         ).map(list), min_size=2, max_size=8)}), run_reuse,
            "several buffers, whole, cut and damaged, through one object; non-trivial when several messages are found", 1200),
        Sub("splice", lambda: st.fixed_dictionaries({"a": gens.frames(ids=gens.found_ids()), "b": gens.frames(small=True),
                                                     "cut": st.integers(0, 260), "pre": hexes(9), "post": hexes(9)}),
            run_splice, "a frame inserted at any byte of another one; non-trivial when a message is found", 2400),
        Sub("long", lambda: st.fixed_dictionaries({"parts": st.lists(gens.parts(), min_size=1, max_size=8), "n": st.integers(10, 150),
                                                   "limit": st.sampled_from([500, 5000, 20000]), "mix": st.integers(0, 2 ** 16)}),
            run_long, "buffers of up to 150 parts (20 kB); non-trivial with more than ten messages", 160, 3200),
        Sub("biterrors", lambda: st.fixed_dictionaries({"f": gens.frames(ids=gens.found_ids()), "bits": st.lists(st.integers(0, 2111),
                                                                                             min_size=1, max_size=6)}),
            run_bits, "a single frame with 1-6 bit errors; non-trivial when the bytes changed", 2400),
    ]
