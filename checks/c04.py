"""C04: messages survive packing and parsing, and the protocol's metadata agrees with the dialect definition"""
import io
import json
import math
import os
import struct
import xml.etree.ElementTree as ET
from array import array
from hypothesis import strategies as st
from vlib import gens, mavref
from vlib.core import Exhaustive, REPO, Sub, check
from protocol_meta import dialect_meta, MAVError, field_lengths, format_strings
import mavlink_utils.HC_dialect as hc
import mavlink_utils.minimal_dialect as minimal

REFS = {"HC": (hc, mavref.load(REPO)),
        "minimal": (minimal, mavref.Dialect(os.path.join(REPO, "mavlink_utils", "minimal_dialect.xml")))}
D = REFS["HC"][1]
ASSUMPTIONS = ["the XML files define the dialects"]
RANGE = {"uint64_t": (0, 2 ** 64 - 1), "int64_t": (-2 ** 63, 2 ** 63 - 1), "uint32_t": (0, 2 ** 32 - 1),
         "int32_t": (-2 ** 31, 2 ** 31 - 1), "uint16_t": (0, 65535), "int16_t": (-32768, 32767), "uint8_t": (0, 255),
         "int8_t": (-128, 127)}


def scalar(typ):
    if typ == "float":
        return st.floats(width=32, allow_nan=False)
    if typ == "double":
        return st.floats(allow_nan=False)
    lo, hi = RANGE[typ]
    return st.one_of(st.integers(lo, hi), st.sampled_from([lo, hi, 0, 1]))


@st.composite
def messages(draw, which=None):
    which = which or draw(st.sampled_from(["HC", "HC", "HC", "minimal"]))
    ref = REFS[which][1]
    mid = draw(st.sampled_from(sorted(ref.messages)))
    vals = []
    for f in ref.messages[mid].fields:
        if f.type == "char":
            vals.append("".join(draw(st.lists(st.integers(1, 127).map(chr), max_size=f.elements))))
        elif f.array:
            if f.array > 16:
                seed = draw(st.lists(scalar(f.type), min_size=3, max_size=3))
                vals.append([seed[i % 3] for i in range(f.array)])
            else:
                vals.append(draw(st.lists(scalar(f.type), min_size=f.array, max_size=f.array)))
        else:
            vals.append(draw(scalar(f.type)))
    vals = [v.hex() if isinstance(v, float) else [x.hex() if isinstance(x, float) else x for x in v]
            if isinstance(v, list) else v for v in vals]
    return {"dialect": which, "id": mid, "values": vals, "twist": draw(st.integers(0, 300)), "seq": draw(gens.byte), "sys": draw(gens.byte),
            "comp": draw(gens.byte)}


def plain(f, v):
    conv = (lambda x: float.fromhex(x)) if f.type in ("float", "double") else (lambda x: x)
    return [conv(x) for x in v] if isinstance(v, list) else conv(v)


def wire_payload(m, vals):
    by = dict(zip([f.name for f in m.fields], vals))
    out = b""
    for f in m.wire:
        v = by[f.name]
        if f.type == "char":
            out += v.encode().ljust(f.elements, b"\0")
        else:
            for x in (v if isinstance(v, list) else [v]):
                out += struct.pack("<" + mavref.TYPE_FMT[f.type], x)
    return out


def build(mod, mid, m, vals):
    args = [v.encode() if f.type == "char" else v for f, v in zip(m.fields, vals)]
    return mod.mavlink_map[mid](*args)


def run_roundtrip(case, info):
    mod, ref = REFS[case["dialect"]]
    m = ref.messages[case["id"]]
    vals = [plain(f, v) for f, v in zip(m.fields, case["values"])]
    link = mod.MAVLink(io.BytesIO(), case["sys"], case["comp"])
    link.seq = case["seq"]
    frame = bytes(build(mod, case["id"], m, vals).pack(link))
    want = m.frame(wire_payload(m, vals), case["seq"], case["sys"], case["comp"])
    check(frame == want, "%s packs to %s, expected %s", m.name, frame.hex(), want.hex())
    got = link.decode(array("B", frame))
    check(got.get_msgId() == case["id"] and got.get_type() == m.name, "parsed as %s", got.get_type())
    check((got.get_seq(), got.get_srcSystem(), got.get_srcComponent()) == (case["seq"], case["sys"], case["comp"]),
          "addressing changed: %s", (got.get_seq(), got.get_srcSystem(), got.get_srcComponent()))
    for f, v in zip(m.fields, vals):
        g = getattr(got, f.name)
        if isinstance(v, list):
            g = list(g) if isinstance(g, (list, tuple)) else [g]
        check(g == v, "%s.%s is %r, was %r", m.name, f.name, g, v)
    same = link.decode(array("B", frame))
    check(got == same and not got != same, "%s differs from itself", m.name)
    d = got.to_dict()
    check(set(d) == {f.name for f in m.fields} | {"mavpackettype"} and d["mavpackettype"] == m.name, "as dictionary: %s", d)
    for f, v in zip(m.fields, vals):
        check((list(d[f.name]) if isinstance(v, list) else d[f.name]) == v, "%s is %r in the dictionary", f.name, d[f.name])
    check(json.loads(got.to_json()) == json.loads(json.dumps(d)), "as JSON: %s", got.to_json())
    other = bytearray(frame[:-2])
    k = case["twist"] % (len(other) - 3)
    k = 2 + k if k < 3 else 3 + k  # sequence, addresses or payload; never the id
    other[k] ^= 1 << case["seq"] % 8
    if m.atoms():
        other += struct.pack("<H", mavref.crc_accumulate(bytes(other[1:]) + bytes([m.crc_extra])))
        text = [f for f in m.fields if f.type in ("char", "float", "double")]
        if k < 6 or not text:
            other = link.decode(array("B", bytes(other)))
            check(got != other and not got == other, "%s is equal to %s (byte %d changed)", got, other, k)
            check(got != None, "a message is equal to None")  # noqa: E711
            info.label("unequal")
    check(bytes(got.pack(link)) == frame if not any(f.type == "char" for f in m.fields) else True, "repacking differs")
    info.label(case["dialect"], *(["arrays"] if any(f.array for f in m.fields) else []))
    info.mark(True)


def run_send(case, info):
    """a history of messages sent over one link: the bytes written are the frames in order, numbered modulo 256"""
    first = case["msgs"][0]
    mod, ref = REFS[first["dialect"]]
    out = io.BytesIO()
    link = mod.MAVLink(out, first["sys"], first["comp"])
    link.seq = first["seq"]
    want = b""
    sent = []
    link.set_send_callback(lambda m, tag: sent.append((m.get_msgId(), tag)), "tag")
    n = 0
    for case1, how in zip(case["msgs"], case["how"]):
        if case1["dialect"] != first["dialect"]:
            continue
        m = ref.messages[case1["id"]]
        vals = [plain(f, v) for f, v in zip(m.fields, case1["values"])]
        args = [v.encode() if f.type == "char" else v for f, v in zip(m.fields, vals)]
        # the version field is not an ordinary argument of the helper functions: it comes last and has a default
        version = [i for i, f in enumerate(m.fields) if f.wire_type == "uint8_t_mavlink_version"]
        helper = [a for i, a in enumerate(args) if i not in version] + [args[i] for i in version]
        name = m.name.lower()
        if how == 0:
            link.send(build(mod, case1["id"], m, vals))
        elif how == 1:
            link.send(getattr(link, name + "_encode")(*helper))
        else:
            getattr(link, name + "_send")(*helper)
        want += m.frame(wire_payload(m, vals), (first["seq"] + n) % 256, first["sys"], first["comp"])
        n += 1
        check(out.getvalue() == want, "%s sent as %s, expected %s", m.name, out.getvalue().hex(), want.hex())
        info.label("how:%d" % how)
    check(link.total_packets_sent == n and link.total_bytes_sent == len(want), "counters: %d packets, %d bytes",
          link.total_packets_sent, link.total_bytes_sent)
    check([s[0] for s in sent] == [c["id"] for c in case["msgs"][:len(case["how"])] if c["dialect"] == first["dialect"]]
          and all(s[1] == "tag" for s in sent), "callbacks: %s", sent)
    info.mark(n > 1)


def frame_of(f):
    if "values" not in f:
        return gens.frame_bytes(f)
    m = REFS[f["dialect"]][1].messages[f["id"]]
    return m.frame(wire_payload(m, [plain(x, v) for x, v in zip(m.fields, f["values"])]), f["seq"], f["sys"], f["comp"])


def run_robust(case, info, mod=hc, D=D):
    """a robust parser fed with anything loses no byte and finds every frame which begins where the one before ended"""
    data = b"".join(frame_of(f) if isinstance(f, dict) else bytes.fromhex(f) for f in case["parts"])
    cuts = sorted(c % (len(data) + 1) for c in case["cuts"])
    link = mod.MAVLink(io.BytesIO())
    link.robust_parsing = True
    got = []
    told = []
    link.set_callback(lambda msg, tag: told.append((msg, tag)), "tag")
    prev = 0
    for c in cuts + [len(data)]:
        got += link.parse_buffer(data[prev:c]) or []
        prev = c
    check(len(told) == len(got) and all(a is b and t == "tag" for (a, t), b in zip(told, got)),
          "%d messages came out, %d were announced", len(got), len(told))
    pos = 0
    good = bad = 0
    for g in got:
        buf = bytes(g.get_msgbuf())
        check(data[pos:pos + len(buf)] == buf and buf, "bytes at %d came out as %s", pos, buf.hex())
        m = D.match(data, pos)
        if g.get_type() == "BAD_DATA":
            check(m is None, "%s at %d was taken for bad data", m.name if m else "", pos)
            bad += 1
        elif buf[0] == 0xFE:
            check(m is not None and m.name == g.get_type() and len(buf) == m.size + 8, "%s at %d is no frame",
                  g.get_type(), pos)
            good += 1
        pos += len(buf)
    rest = data[pos:]
    if rest:
        need = rest[1] + 8 if len(rest) > 1 else 9
        check(rest[0] == 0xFD or (rest[0] == 0xFE and len(rest) < need), "%d bytes were kept back at %d", len(rest), pos)
    check(link.total_bytes_received == len(data) and link.total_packets_received == len(got)
          and link.total_receive_errors == bad, "counters: %d bytes, %d packets, %d errors", link.total_bytes_received,
          link.total_packets_received, link.total_receive_errors)
    info.label("bad" if bad else "clean")
    info.mark(good > 0 and bad > 0)


def run_stream(case, info, mod=hc):
    """valid frames fed to the stream parser in any chunks come out complete, in order, once"""
    data = b"".join(frame_of(f) for f in case["frames"])
    cuts = sorted(c % (len(data) + 1) for c in case["cuts"])
    link = mod.MAVLink(io.BytesIO())
    got = []
    prev = 0
    for c in cuts + [len(data)]:
        got += link.parse_buffer(data[prev:c]) or []
        prev = c
    check([bytes(g.get_msgbuf()) for g in got] == [frame_of(f) for f in case["frames"]],
          "%d messages from a stream of %d", len(got), len(case["frames"]))
    info.label("frames:%d" % len(case["frames"]))
    info.mark(len(case["frames"]) > 1 and len(cuts) > 0)


def run_minimal(case, info):
    run_robust(case, info, minimal, REFS["minimal"][1])
    run_stream({"frames": [f for f in case["parts"] if isinstance(f, dict)] or [], "cuts": case["cuts"]}, info, minimal)


def run_damaged(case, info):
    """a frame with up to three flipped bits, a wrong length or a foreign seed is refused"""
    f = gens.frame_bytes(case["f"])
    data = bytearray(f)
    for b in case["bits"]:
        b %= 8 * len(data)
        data[b // 8] ^= 0x80 >> (b % 8)
    if case["cut"]:
        data = data[:max(6, len(data) - case["cut"])]
    if bytes(data) == f:
        return
    ok = D.match(bytes(data), 0)
    if ok is not None and len(data) == ok.size + 8:
        return  # the checksum cannot tell
    if data[0] == 0xFD:
        return  # a MAVLink 2 frame
    try:
        hc.MAVLink(io.BytesIO()).decode(array("B", bytes(data)))
    except MAVError:
        info.mark()
        return
    check(False, "a damaged frame was accepted: %s", bytes(data).hex())


def meta_cases():
    return [["msg", i] for i in range(256)] + [["types"], ["minimal"], ["enums", "HC"], ["enums", "minimal"]]


def run_meta(case, info):
    info.mark()
    if case[0] == "types":
        for t, n in mavref.TYPE_SIZE.items():
            if t in field_lengths:
                check(field_lengths[t] == n, "%s is %s bytes long", t, field_lengths[t])
                check(struct.calcsize(format_strings[t]) == n and format_strings[t][0] == "<", "format of %s", t)
        used = {f.type for m in D.messages.values() for f in m.fields}
        check(used <= set(field_lengths), "types without a length: %s", used - set(field_lengths))
        check(dialect_meta.stx == 0xFE and dialect_meta.header_len == 6 and dialect_meta.crc_len == 2
              and dialect_meta.protocol_overhead == 8, "framing constants")
        return
    if case[0] == "enums":
        mod = REFS[case[1]][0]
        tree = ET.parse(os.path.join(REPO, "mavlink_utils", case[1] + "_dialect.xml"))
        for e in tree.getroot().iter("enum"):
            entries = mod.enums[e.get("name")]
            for i in e.iter("entry"):
                name = i.get("name")
                check(getattr(mod, name, None) is not None, "%s is missing", name)
                value = getattr(mod, name)
                check(i.get("value") is None or value == int(i.get("value"), 0), "%s is %s", name, value)
                check(value in entries and entries[value].name == name, "entry %s of %s", value, e.get("name"))
        return
    if case[0] == "minimal":
        mod, ref = REFS["minimal"]
        check(set(mod.mavlink_map) == set(ref.messages), "messages of the minimal dialect")
        for i, m in ref.messages.items():
            check(mod.mavlink_map[i].crc_extra == m.crc_extra and mod.mavlink_map[i].unpacker.size == m.size, "%s", m.name)
        return
    i = case[1]
    m = D.messages.get(i)
    check((i in dialect_meta.msg_ids) == (m is not None), "message %d known: %s", i, i in dialect_meta.msg_ids)
    check(dialect_meta.msgs_payload_length.get(i) == (gens.DIALECT.messages[i].declared if m else None), "payload of message %d is %s bytes", i,
          dialect_meta.msgs_payload_length.get(i))
    check(dialect_meta.msgs_fields.get(i) == ([(f.name, f.type) for f in m.wire] if m else None),
          "fields of message %d: %s", i, dialect_meta.msgs_fields.get(i))
    if m:
        cls = hc.mavlink_map[i]
        check(cls.crc_extra == m.crc_extra and cls.name == m.name and cls.id == i, "definition of message %d", i)
        check(list(cls.fieldnames) == [f.name for f in m.fields] and list(cls.fieldtypes) == [f.type for f in m.fields],
              "fields of %s", m.name)
        check(list(cls.ordered_fieldnames) == [f.name for f in m.wire], "order of %s on the air", m.name)


def probes():
    return (("array-length", lambda: gens.probe_array("metadata")),)


def subs():
    return [
        Exhaustive("metadata", meta_cases, run_meta, "every message id 0-255 of the dialect; all are non-trivial"),
        Sub("roundtrip", messages, run_roundtrip,
            "a message of either dialect with generated field values, packed and parsed; every case is non-trivial", 4000),
        Sub("send", lambda: st.fixed_dictionaries({"msgs": st.lists(messages(), min_size=1, max_size=4),
                                                   "how": st.lists(st.integers(0, 2), min_size=4, max_size=4)}), run_send,
            "messages sent one after another through the link's helpers; non-trivial with more than one", 2000),
        Sub("robust", lambda: st.fixed_dictionaries({
            "parts": st.lists(st.one_of(gens.frames(), st.binary(max_size=20).map(bytes.hex),
                                        st.sampled_from(["fe", "fe00", "fe0900010100", "00", "fefe"])), min_size=1, max_size=6),
            "cuts": st.lists(st.integers(0, 1200), max_size=6)}), run_robust,
            "frames and noise fed in generated chunks; non-trivial with frames and bad data", 1600),
        Sub("stream", lambda: st.fixed_dictionaries({"frames": st.lists(gens.frames(), min_size=1, max_size=5),
                                                     "cuts": st.lists(st.integers(0, 1200), max_size=8)}), run_stream,
            "frames fed in generated chunks; non-trivial with several frames and at least one cut", 1600),
        Sub("minimal", lambda: st.fixed_dictionaries({
            "parts": st.lists(st.one_of(messages("minimal"), st.binary(max_size=12).map(bytes.hex),
                                        st.sampled_from(["fe", "fe00", "fe0900010100", "00"])), min_size=1, max_size=8),
            "cuts": st.lists(st.integers(0, 400), max_size=6)}), run_minimal,
            "frames of the minimal dialect, with and without noise, in generated chunks; non-trivial with frames and bad data",
            1000),
        Sub("damaged", lambda: st.fixed_dictionaries({
            "f": gens.frames(), "bits": st.lists(st.integers(0, 2111), max_size=3, unique=True),
            "cut": st.sampled_from([0, 0, 0, 1, 2, 3])}), run_damaged,
            "a frame with bit errors or cut short; non-trivial when it is damaged and refused", 2400),
    ]
