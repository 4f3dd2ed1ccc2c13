"""C02: reports of damaged parts cover exactly the bytes which belong to no message"""
import random
import numpy as np
from hypothesis import strategies as st
from vlib import gens
from vlib.core import Sub, check
from inference import BufferSegmentation, MsgParts
from protocol_meta import dialect_meta

ASSUMPTIONS = ["part labels are the ones segmentation produces, or any array of labels of the buffer's length"]


def runs(flags):
    out = []
    for i, f in enumerate(flags):
        if f:
            if out and out[-1][1] == i:
                out[-1][1] = i + 1
            else:
                out.append([i, i + 1])
    return [tuple(r) for r in out]


def compare(seg, buf, parts):
    want = runs([p is MsgParts.UNKNOWN for p in parts])
    got = seg.bad_buffer_parts(buf, parts)
    check({int(k): bytes(v) for k, v in got.items()} == {a: buf[a:b] for a, b in want},
          "damaged parts %s, expected %s", {int(k): bytes(v).hex() for k, v in got.items()}, want)
    check(list(got) == [a for a, _ in want], "damaged parts are not in buffer order")
    idx = seg.bad_buffer_idx(buf, parts)
    if not want:
        check(idx is None, "a buffer without damage reported %s", idx)
    else:
        check(idx is not None and [(int(a), int(b)) for a, b in idx] == want, "damaged ranges %s, expected %s", idx, want)
    return want


def run_buffer(case, info):
    buf = gens.buffer_bytes(case)
    if gens.DIALECT.unclaimed(buf):
        return
    seg = BufferSegmentation(dialect_meta.protocol_parser)
    parts, _, structure = seg.segment_buffer(buf)
    want = compare(seg, buf, parts)
    # rebuilt from the messages and the damaged parts, the buffer is complete and nothing appears twice
    pieces = {int(k): bytes(v) for k, v in seg.bad_buffer_parts(buf, parts).items()}
    for start, m, end in gens.DIALECT.segment(buf):
        check(start not in pieces, "a message is reported as damaged")
        pieces[start] = buf[start:end]
    check(b"".join(pieces[k] for k in sorted(pieces)) == buf, "messages and damaged parts don't add up to the buffer")
    info.label("damaged parts:%d" % min(len(want), 4), "messages:%d" % min(len(structure), 4))
    info.mark(bool(want))


def run_labels(case, info):
    kinds = list(MsgParts)
    labels = [kinds[i] for i in case["labels"]]
    parts = np.array(labels, dtype=object)
    buf = bytes((7 * i + case["salt"]) % 256 for i in range(len(labels)))
    want = compare(BufferSegmentation(dialect_meta.protocol_parser), buf, parts)
    info.label("damaged parts:%d" % min(len(want), 4))
    info.mark(len(want) > 1)


def run_long(case, info):
    rnd = random.Random(case["mix"])
    labels = []
    if case["shape"] == "mixed":
        while len(labels) < case["n"]:
            labels += [rnd.choice([3, 3, 0, 1, 2])] * rnd.choice([1, 1, 2, 9, 40, 300, 1500])
    else:  # almost all bytes are of one kind
        labels = [3 if case["shape"] == "bad" else 1] * case["n"]
        for _ in range(rnd.choice([0, 1, 1, 2, 5])):
            labels[rnd.choice([0, -1, rnd.randrange(case["n"]), rnd.randrange(case["n"])])] = 2 if case["shape"] == "bad" else 3
    run_labels({"labels": labels[:case["n"]], "salt": case["mix"] % 256}, info)


def subs():
    return [
        Sub("buffers", lambda: gens.buffers(6), run_buffer,
            "segmented buffers (valid, damaged and truncated frames, noise); non-trivial when some byte is damaged", 4000),
        Sub("labels", lambda: st.fixed_dictionaries({"labels": st.lists(st.sampled_from([3, 3, 0, 1, 2]), max_size=24),
                                                     "salt": st.integers(0, 255)}), run_labels,
            "any sequence of part labels; non-trivial with at least two damaged runs", 4000),
        Sub("long", lambda: st.fixed_dictionaries({"n": st.one_of(st.integers(100, 4000), st.integers(100, 70000)), "shape": st.sampled_from(["mixed", "bad", "good"]), "mix": st.integers(0, 2 ** 16)}), run_long,
            "as labels, up to 70000 bytes, mixed or almost all of one kind", 160, 1600),
    ]
