"""C05: frame headers"""
import re
from hypothesis import strategies as st
from vlib import gens
from vlib.core import Exhaustive, Sub, check
from protocol_meta import FrameHeader, NonExistentMsdId, is_valid_header, dialect_meta
from protocol_meta.msg_header import HeaderLength
from utils.custom_exceptions import NonUint8

D = gens.DIALECT
wide = st.one_of(st.integers(-3, 260), st.sampled_from([-1, 0, 1, 127, 128, 255, 256, 257, 65536, -256]))


def known():
    return st.sampled_from(gens.IDS)


def run_build(case, info):
    mid, sys_id, comp, seq = case["id"], case["sys"], case["comp"], case["seq"]
    bad = [x for x in (mid, sys_id, comp, seq) if not 0 <= x <= 255]
    try:
        h = FrameHeader(mid, sys_id, comp, seq)
    except NonUint8:
        check(bool(bad), "values in range were refused: %s", case)
        info.label("out of range")
        info.mark()
        return
    except NonExistentMsdId:
        check(not bad and mid not in D.messages, "message %d was refused", mid)
        info.label("unknown id")
        info.mark()
        return
    check(not bad and mid in D.messages, "accepted %s", case)
    want = bytes([0xFE, D.messages[mid].declared, seq, sys_id, comp, mid])
    check(h.buffer == want, "header %s, expected %s", h.buffer.hex(), want.hex())
    check((h.length, h.sequence, h.sys_id, h.comp_id, h.msg_id) == (want[1], seq, sys_id, comp, mid), "attributes of %s",
          h.buffer.hex())
    check(h.bit_string.tobytes() == want and len(h.bit_string) == 48, "bit string %s", h.bit_string)
    check(is_valid_header(h.buffer), "own header isn't valid")
    text = re.findall(r"\d+", str(h))
    check(str(mid) in text and str(sys_id) in text, "the header's text is %s", str(h))
    again = FrameHeader.from_buffer(h.buffer)
    check(again.buffer == want, "parsed back as %s", again.buffer.hex())
    other = bytes.fromhex(case["other"])
    dist = bin(int.from_bytes(want, "big") ^ int.from_bytes(other, "big")).count("1")
    check(h.hamming_distance(other) == dist, "distance to %s is %s, expected %d", other.hex(), h.hamming_distance(other), dist)
    info.label("valid")
    info.mark()


def run_parse(case, info):
    buf = bytes.fromhex(case["buf"])
    force = case["force"]
    try:
        h = FrameHeader.from_buffer(buf) if force is None else FrameHeader.from_buffer(buf, force)
    except HeaderLength:
        check(len(buf) != 6, "six bytes were refused")
        info.label("wrong length")
        return
    except NonExistentMsdId:
        check(len(buf) == 6 and (buf[5] if force is None else force) not in D.messages, "known id was refused")
        info.label("unknown id")
        return
    check(len(buf) == 6, "%d bytes were accepted", len(buf))
    mid = buf[5] if force is None else force
    check(mid in D.messages, "unknown id %d was accepted", mid)
    want = bytes([0xFE, D.messages[mid].declared, buf[2], buf[3], buf[4], mid])
    check(h.buffer == want, "header %s, expected %s", h.buffer.hex(), want.hex())
    info.label("forced" if force is not None else "parsed")
    info.mark()


def run_valid(case, info):
    buf = bytes.fromhex(case)
    want = D.valid_header(buf)
    check(bool(is_valid_header(buf)) == want, "%s is %svalid", buf.hex(), "" if want else "not ")
    info.label("valid" if want else "invalid")
    info.mark(len(buf) == 6 and buf[0] == 0xFE)


@st.composite
def headers(draw):
    mid = draw(known())
    h = bytearray([0xFE, D.messages[mid].declared, draw(gens.byte), draw(gens.byte), draw(gens.byte), mid])
    for b in draw(st.lists(st.integers(0, 47), max_size=2)):
        h[b // 8] ^= 0x80 >> (b % 8)
    n = draw(st.sampled_from([6, 6, 6, 6, 5, 7, 0]))
    return bytes(h[:n] + bytes(max(0, n - 6))).hex()


def len_id_pairs():
    return [[ln, mid] for mid in range(256) for ln in range(256)]


def run_pair(case, info):
    buf = bytes([0xFE, case[0], 1, 2, 3, case[1]])
    check(bool(is_valid_header(buf)) == D.valid_header(buf), "length %d with id %d", case[0], case[1])
    info.mark(D.valid_header(buf))


def probes():
    return (("array-length", lambda: gens.probe_array("header")),)


def subs():
    six = st.binary(min_size=6, max_size=6).map(lambda b: b.hex())
    return [
        Sub("build", lambda: st.fixed_dictionaries({
            "id": st.one_of(known(), known(), gens.byte, wide), "sys": st.one_of(gens.byte, gens.byte, wide),
            "comp": st.one_of(gens.byte, gens.byte, wide), "seq": st.one_of(gens.byte, gens.byte, wide),
            "other": st.one_of(six, headers().filter(lambda h: len(h) == 12))}), run_build,
            "headers built from values in and out of range; non-trivial when built or refused with the right error", 4000),
        Sub("parse", lambda: st.fixed_dictionaries({
            "buf": st.one_of(headers(), headers(), st.binary(max_size=8).map(lambda b: b.hex())),
            "force": st.one_of(st.none(), st.none(), known(), gens.byte)}), run_parse,
            "headers parsed from six, fewer or more bytes, with and without a forced id; non-trivial when parsed", 4000),
        Sub("valid", lambda: st.one_of(headers(), st.binary(max_size=8).map(lambda b: b.hex())), run_valid,
            "validity of near-valid headers; non-trivial when six bytes start with the marker", 4000),
        Exhaustive("pairs", len_id_pairs, run_pair, "every (length, id) pair; non-trivial when valid"),
    ]
