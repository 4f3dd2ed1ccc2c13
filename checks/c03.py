"""C03: fields are read from a buffer with the value, type and place the protocol gives them"""
import math
import struct
import numpy as np
from hypothesis import strategies as st
from vlib import gens, mavref
from vlib.core import Sub, check
from inference import BufferSegmentation, BufferModel
from protocol_meta import dialect_meta

D = gens.DIALECT
ASSUMPTIONS = ["text in character fields is ASCII when its exact value is compared"]


def same(a, b):
    if isinstance(a, (list, tuple)) or isinstance(b, (list, tuple)):
        return isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)) and len(a) == len(b) and all(
            same(x, y) for x, y in zip(a, b))
    if isinstance(a, str) or isinstance(b, str):
        return a == b
    a, b = float(a) if isinstance(a, float) else a, float(b) if isinstance(b, float) else b
    return a == b or (isinstance(a, float) and isinstance(b, float) and math.isnan(a) and math.isnan(b))


def field_values(m, payload):
    """name -> (value, type); value None means text which isn't ASCII"""
    out = {}
    off = 0
    for f in m.wire:
        w = mavref.TYPE_SIZE[f.type]
        raw = payload[off:off + w * f.elements]
        off += w * f.elements
        if f.type == "char":
            text = raw.split(b"\0")[0]
            val = text.decode() if all(c < 128 for c in raw) else None
        else:
            vals = [struct.unpack("<" + mavref.TYPE_FMT[f.type], raw[i * w:(i + 1) * w])[0] for i in range(f.elements)]
            val = vals if f.array > 1 else vals[0]
        out[f.name] = (val, f.type)
    return out


def run_reuse(case, info):
    """one object for many buffers"""
    seg = BufferSegmentation(dialect_meta.protocol_parser)
    for which, flip in case["visits"]:
        buf = bytearray(gens.buffer_bytes(case["bufs"][which % len(case["bufs"])]))
        if flip and buf:
            buf[flip % len(buf)] ^= 0x10
        run_buffer(bytes(buf), seg, info)


def run_fields(case, info):
    run_buffer(gens.buffer_bytes(case), BufferSegmentation(dialect_meta.protocol_parser), info)


def run_buffer(buf, seg, info):
    if D.unclaimed(buf):
        return
    fields, desc = seg.get_msg_fields(buf)
    msgs = D.segment(buf)
    want = {}
    want_desc = []
    for start, m, end in msgs:
        want_desc.append(buf[start:start + 6])
        for name, (val, typ) in field_values(m, buf[start + 6:end - 2]).items():
            want[m.name + "_" + name] = (val, typ)
            want_desc.append((m.name + "_" + name, typ))
        want_desc.append("crc")
    check(set(fields) == set(want), "fields %s, expected %s", sorted(fields), sorted(want))
    for k, (val, typ) in want.items():
        check(fields[k][1] == typ, "%s has type %s, expected %s", k, fields[k][1], typ)
        if val is not None:
            check(same(fields[k][0], val), "%s is %r, expected %r", k, fields[k][0], val)
    got_desc = [d if isinstance(d, str) else bytes(d) if isinstance(d, (bytes, bytearray)) else tuple(d) for d in desc]
    check(got_desc == want_desc, "description %s, expected %s", got_desc, want_desc)
    info.label("messages:%d" % min(len(msgs), 4))
    info.mark(bool(msgs))
    if any(f.array for _, m, _ in msgs for f in m.fields):
        info.label("array fields")


def bits_of(data):
    return np.unpackbits(np.frombuffer(data, dtype=np.uint8)).astype(np.int_) if data else np.zeros(0, dtype=np.int_)


def run_layouts(case, info):
    """layouts which have positions or ids in common, and buffers of several lengths, one after another"""
    for which, extra, mode in case["visits"]:
        s = case["structs"][which % len(case["structs"])]
        if mode == 1 and len(s["msgs"]) > 1:  # without the last message
            s = dict(s, msgs=s["msgs"][:-1])
        elif mode == 2:  # other values
            s = dict(s, msgs=[[g, dict(f, seq=255 - f["seq"], payload=bytes(b ^ 0x55 for b in bytes.fromhex(f["payload"])).hex())]
                              for g, f in s["msgs"]])
        run_layout({"s": s, "gap": 0, "extra": extra, "errors": []}, info)


def run_layout(case, info):
    layout, total = gens.structure_layout(case["s"])
    data = bytearray(gens.structure_bytes(case["s"], case["gap"]))
    for b in case["errors"]:  # values are read from damaged buffers as well
        b %= 8 * len(data)
        data[b // 8] ^= 0x80 >> (b % 8)
    data = bytes(data) + bytes(case["extra"])
    atoms = gens.layout_atoms(layout)
    want = gens.atom_values(atoms, data)
    for form in ("bytes", "bits"):
        got = BufferModel.unpack_values(data if form == "bytes" else bits_of(data), layout)
        check(len(got) == len(want) and all(same(g, w) for g, w in zip(got, want)), "%s: values %s, expected %s", form,
              list(got), want)
    place, names, types = BufferModel.unpack_structure(True, len(data), layout)
    check(len(names) == len(types) == len(atoms), "%d names and %d types for %d fields", len(names), len(types), len(atoms))
    for i, (name, typ, first, width, _) in enumerate(atoms):
        check(types[i] == typ, "field %d (%s) has type %s, expected %s", i, names[i], types[i], typ)
        check(name is None or names[i] == name, "field %d is called %s, expected %s", i, names[i], name)
    arr = [n for n, a in zip(names, atoms) if a[0] is None]
    per_msg = [m for m in layout.values()]
    if len(set(per_msg)) == len(per_msg):
        check(len(set(arr)) == len(arr) and not set(arr) & {a[0] for a in atoms if a[0]}, "array elements share a name")
    expect = np.full(8 * len(data), -1)
    for i, (_, _, first, width, _) in enumerate(atoms):
        expect[first:first + width] = i
    check(np.array_equal(np.asarray(place), expect), "bits are mapped to the wrong field")
    place[...] = 77  # a caller may do with it what they like
    names.clear()
    types.clear()
    place, names, types = BufferModel.unpack_structure(True, len(data), layout)
    check(np.array_equal(np.asarray(place), expect) and len(names) == len(types) == len(atoms), "the same layout read again differs")
    place2, names2, types2 = BufferModel.unpack_structure(False, len(data), layout)
    check(list(names2) == list(names) and list(types2) == list(types), "names and types depend on the bit map being asked for")
    info.label("messages:%d" % len(layout), *(["gaps"] if total != sum(D.messages[m].size + 8 for m in layout.values()) else []),
               *(["array fields"] if arr else []))
    info.mark(True)


def probes():
    return (("array-length", lambda: gens.probe_array("fields")),)


def subs():
    return [
        Sub("fields", lambda: gens.buffers(5), run_fields,
            "fields of every message found in an assembled buffer; non-trivial when it holds a message", 5000),
        Sub("reuse", lambda: st.fixed_dictionaries({
            "bufs": st.lists(gens.buffers(3), min_size=1, max_size=3),
            "visits": st.lists(st.tuples(st.integers(0, 2), st.sampled_from([0, 0, 3, 11, 40])).map(list), min_size=2, max_size=6)}),
            run_reuse, "as fields, several buffers through one object", 800),
        Sub("layouts", lambda: st.fixed_dictionaries({
            "structs": st.lists(gens.structures(3), min_size=1, max_size=3),
            "visits": st.lists(st.tuples(st.integers(0, 2), st.sampled_from([0, 0, 1, 9]), st.integers(0, 2)).map(list), min_size=2,
                               max_size=6)}), run_layouts, "as layout, several layouts and lengths in turn", 600),
        Sub("layout", lambda: st.fixed_dictionaries({
            "s": gens.structures(4), "gap": st.sampled_from([0, 255, 254]), "extra": st.integers(0, 9),
            "errors": st.lists(st.integers(0, 4000), max_size=6)}), run_layout,
            "values, names, types and bit positions for generated layouts of 1-4 messages with gaps and bit errors, from "
            "bytes and from bits; every case is non-trivial", 3000),
    ]
