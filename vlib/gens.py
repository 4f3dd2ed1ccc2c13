"""strategies shared by checks. Every drawn value is JSON: integers, floats, strings, lists, dicts."""
import struct

from hypothesis import strategies as st

from vlib import mavref
from vlib.core import REPO

DIALECT = mavref.load(REPO)
IDS = sorted(DIALECT.messages)


def one_element_each(m):
    """payload length of a message if every array had one element"""
    return sum(mavref.TYPE_SIZE[f.type] for f in m.fields)


def known_lengths():
    """Known finding array-length: the metadata counts one element per array, so header functions give messages with array
    fields that length and segmentation doesn't find them. Only exactly this wrong value is tolerated, only for them."""
    from protocol_meta import dialect_meta
    for m in DIALECT.messages.values():
        if any(f.array for f in m.fields) and dialect_meta.msgs_payload_length.get(m.id) == one_element_each(m) != m.size:
            m.declared = one_element_each(m)
            m.found = False


known_lengths()
FOUND = [i for i in IDS if DIALECT.messages[i].found]
SMALL_IDS = [i for i in FOUND if DIALECT.messages[i].size <= 16]
# messages which the vehicle's telemetry consists of (see the structures quoted in the runs)
FAVOURITE = [i for i in (30, 33, 212, 218, 234, 0, 2, 24, 36) if i in DIALECT.messages]
ARRAYS = [i for i in IDS if any(f.array for f in DIALECT.messages[i].fields)]
SCALAR_IDS = [i for i in IDS if i not in ARRAYS]

byte = st.integers(0, 255)


def found_ids():
    """messages which segmentation finds, and now and then another one"""
    return st.one_of(st.sampled_from(SMALL_IDS), st.sampled_from(FOUND), st.sampled_from(FAVOURITE), st.sampled_from(FOUND),
                     st.sampled_from(IDS))


def msg_ids(small=False):
    pool = [st.sampled_from(SMALL_IDS)]
    if not small:
        pool += [st.sampled_from(IDS), st.sampled_from(FAVOURITE), st.sampled_from(ARRAYS)]
    return st.one_of(pool)


def payload_bytes(size):
    """payloads as hex: constant, random, or made of framing bytes"""
    return st.one_of(
        st.binary(min_size=size, max_size=size),
        st.builds(lambda b: bytes([b]) * size, st.sampled_from([0, 0xFE, 0xFF, 0x80, 0x41])),
        st.builds(lambda seed: _expand(seed, size), st.integers(0, 2 ** 32 - 1)),
    ).map(lambda b: b.hex())


def _expand(seed, size):
    """a pseudo random payload from a drawn seed (cheap to draw for long messages)"""
    out = bytearray()
    x = seed or 1
    while len(out) < size:
        x = (x * 6364136223846793005 + 1442695040888963407) & (2 ** 64 - 1)
        out += struct.pack("<Q", x ^ (x >> 29))
    return bytes(out[:size])


@st.composite
def frames(draw, small=False, ids=None):
    mid = draw(ids if ids is not None else msg_ids(small))
    return {"id": mid, "seq": draw(byte), "sys": draw(byte), "comp": draw(byte),
            "payload": draw(payload_bytes(DIALECT.messages[mid].size))}


def frame_bytes(f):
    return DIALECT.messages[f["id"]].frame(bytes.fromhex(f["payload"]), f["seq"], f["sys"], f["comp"])


def recrc(data, crc_extra):
    """a frame with its checksum recomputed"""
    return data[:-2] + struct.pack("<H", mavref.crc_accumulate(data[1:-2] + bytes([crc_extra])))



def probe_array(what):
    """is the known finding array-length there? One element per array is counted in the payload of SERIAL_CONTROL (id 126,
    79 bytes on the air), the first with an array if that is not in the dialect."""
    m = DIALECT.messages[126 if 126 in ARRAYS else ARRAYS[0]]
    data = m.frame(bytes(range(1, m.size + 1)))
    from protocol_meta import dialect_meta, FrameHeader, is_valid_header, hamming_distance_2_valid_header
    from inference import BufferSegmentation
    if m.found:
        return None
    if what == "metadata":
        got, want = dialect_meta.msgs_payload_length[m.id], m.size
    elif what == "header":
        got, want = (FrameHeader(m.id, 0, 0, 0).length, bool(is_valid_header(data[:6]))), (m.size, True)
    elif what == "nearest":
        got, want = hamming_distance_2_valid_header(data[:6]), (0, m.id)
    elif what == "segment":
        got, want = dict(BufferSegmentation(dialect_meta.protocol_parser).segment_buffer(data)[2]), {0: m.id}
    else:
        got = len(BufferSegmentation(dialect_meta.protocol_parser).get_msg_fields(data)[0])
        want = len(m.fields)
    return None if got == want else "%s of a %s frame: %s instead of %s" % (what, m.name, got, want)


@st.composite
def parts(draw):
    """one piece of a buffer: a good message, noise, or a damaged message"""
    kind = draw(st.sampled_from(["msg", "msg", "msg", "noise", "stx", "flip", "trunc", "badlen", "badid", "wrongseed",
                                 "header", "nested", "v2", "swap"]))
    p = {"kind": kind}
    if kind == "noise":
        p["bytes"] = draw(st.binary(max_size=12)).hex()
    elif kind == "stx":
        p["bytes"] = "fe" * draw(st.integers(1, 12))
    elif kind == "nested":
        # a message whose payload holds a complete, valid message
        inner = draw(frames(small=True))
        need = len(frame_bytes(inner))
        outer = draw(st.sampled_from([i for i in (FOUND if draw(st.integers(0, 3)) else IDS) if DIALECT.messages[i].size >= need]))
        size = DIALECT.messages[outer].size
        at = draw(st.integers(0, size - need))
        fill = bytearray(bytes.fromhex(draw(payload_bytes(size))))
        fill[at:at + need] = frame_bytes(inner)
        p["frame"] = {"id": outer, "seq": draw(byte), "sys": draw(byte), "comp": draw(byte), "payload": bytes(fill).hex()}
        p["break"] = draw(st.booleans())  # with a damaged outer checksum the inner message is the one to find
    else:
        f = draw(frames(ids=found_ids()))
        p["frame"] = f
        n = len(frame_bytes(f))
        if kind == "flip":
            p["bits"] = draw(st.lists(st.integers(0, 8 * n - 1), min_size=1, max_size=4, unique=True))
        elif kind == "trunc":
            p["keep"] = draw(st.one_of(st.integers(0, n - 1), st.integers(max(0, n - 3), n - 1)))
        elif kind == "badlen":
            p["len"] = draw(st.one_of(byte, st.sampled_from([max(0, n - 9), min(255, n - 7)])))
        elif kind == "badid":
            p["newid"] = draw(byte)
        elif kind == "wrongseed":
            p["seed"] = draw(byte)
        elif kind == "header":
            p["tail"] = draw(st.binary(max_size=8)).hex()
        elif kind == "v2":
            p["marker"] = draw(st.sampled_from([0xFD, 0xFC, 0xFF, 0x55, 0x7E, 0xDE]))
    return p


def part_bytes(p):
    kind = p["kind"]
    if "frame" not in p:
        return bytes.fromhex(p["bytes"])
    f = p["frame"]
    data = bytearray(frame_bytes(f))
    extra = DIALECT.messages[f["id"]].crc_extra
    if kind == "nested":
        if p["break"]:
            data[-1] ^= 0x5A
    elif kind == "flip":
        for b in p["bits"]:
            data[b // 8] ^= 0x80 >> (b % 8)
    elif kind == "trunc":
        data = data[:p["keep"]]
    elif kind == "badlen":  # a length which contradicts the id, under a checksum which is right for the bytes sent
        data[1] = p["len"]
        data = bytearray(recrc(bytes(data), extra))
    elif kind == "badid":
        data[5] = p["newid"]
        m = DIALECT.messages.get(p["newid"])
        data = bytearray(recrc(bytes(data), m.crc_extra if m else extra))
    elif kind == "wrongseed":
        data = bytearray(recrc(bytes(data), p["seed"]))
    elif kind == "header":
        data = data[:6] + bytes.fromhex(p["tail"])
    elif kind == "v2":
        data[0] = p["marker"]
        data = bytearray(recrc(bytes(data), extra))
    elif kind == "swap":  # checksum bytes in the wrong order
        data[-1], data[-2] = data[-2], data[-1]
    return bytes(data)


def buffers(max_parts=5):
    return st.lists(parts(), max_size=max_parts)


def buffer_bytes(ps):
    return b"".join(part_bytes(p) for p in ps)


@st.composite
def structures(draw, max_msgs=4, ids=None, gaps=True):
    """messages laid out in a buffer: {"msgs": [[gap before, frame], ...], "tail": n} (gaps are zero bytes)"""
    n = draw(st.integers(1, max_msgs))
    msgs = []
    for _ in range(n):
        gap = draw(st.sampled_from([0, 0, 0, 1, 3, 7])) if gaps else 0
        msgs.append([gap, draw(frames(ids=ids))])
    return {"msgs": msgs, "tail": draw(st.sampled_from([0, 0, 1, 5])) if gaps else 0}


def structure_layout(s):
    """{byte index: message id}, total length"""
    pos = 0
    out = {}
    for gap, f in s["msgs"]:
        pos += gap
        out[pos] = f["id"]
        pos += DIALECT.messages[f["id"]].size + mavref.OVERHEAD
    return out, pos + s["tail"]


def structure_bytes(s, gapbyte=0):
    out = b""
    for gap, f in s["msgs"]:
        out += bytes([gapbyte]) * gap + frame_bytes(f)
    return out + bytes([gapbyte]) * s["tail"]


def layout_atoms(layout):
    """every scalar of a layout in buffer order: (name, type, first bit, bit length, struct format). Names of array
    elements are None (the property doesn't fix them)."""
    out = []
    for pos, mid in layout.items():
        m = DIALECT.messages[mid]
        for i, name in enumerate(["magic", m.name + "_mlen", "seq", "srcSystem", m.name + "_srcComponent",
                                  m.name + "_msgId"]):
            out.append((name, "uint8_t", (pos + i) * 8, 8, "<B"))
        base = (pos + 6) * 8
        for f, i, off, width in m.atoms():
            typ = "uint8_t" if f.type == "char" else f.type
            out.append((None if f.array else m.name + "_" + f.name, typ, base + off, width, "<" + mavref.TYPE_FMT[f.type]))
    return out


def atom_values(atoms, data):
    return [struct.unpack(fmt, data[b // 8:(b + w) // 8])[0] for _, _, b, w, fmt in atoms]
