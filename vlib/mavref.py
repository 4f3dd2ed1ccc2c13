"""Independent MAVLink v1 reference, built from the dialect's XML definition.

Nothing here imports the code under test: message layout, CRC seed ("CRC extra"), framing, CRC and segmentation are
implemented from the MAVLink 1.0 serialisation rules.
"""
import os
import re
import struct
import xml.etree.ElementTree as ET

STX = 0xFE
HEADER = 6
CRC = 2
OVERHEAD = HEADER + CRC
TYPE_SIZE = {"uint64_t": 8, "int64_t": 8, "double": 8, "uint32_t": 4, "int32_t": 4, "float": 4, "uint16_t": 2,
             "int16_t": 2, "uint8_t": 1, "int8_t": 1, "char": 1}
TYPE_FMT = {"uint64_t": "Q", "int64_t": "q", "double": "d", "uint32_t": "I", "int32_t": "i", "float": "f",
            "uint16_t": "H", "int16_t": "h", "uint8_t": "B", "int8_t": "b", "char": "B"}


def crc_accumulate(data, crc=0xFFFF):
    """CRC-16/MCRF4XX (X.25 without final inversion), bit by bit."""
    for byte in data:
        crc ^= byte
        for _ in range(8):
            crc = (crc >> 1) ^ 0x8408 if crc & 1 else crc >> 1
    return crc & 0xFFFF


class Field:
    __slots__ = ("name", "type", "array", "wire_type")

    def __init__(self, name, type_):
        m = re.fullmatch(r"(\w+?)(?:\[(\d+)])?", type_)
        base = m.group(1)
        self.wire_type = base
        self.type = "uint8_t" if base == "uint8_t_mavlink_version" else base
        self.array = int(m.group(2)) if m.group(2) else 0
        self.name = name

    @property
    def elements(self):
        return max(self.array, 1)

    @property
    def size(self):
        return TYPE_SIZE[self.type] * self.elements


class Message:
    def __init__(self, msg_id, name, fields):
        self.id = msg_id
        self.name = name
        self.fields = fields  # order of definition
        self.wire = sorted(fields, key=lambda f: -TYPE_SIZE[f.type])  # stable: order on the air
        self.size = sum(f.size for f in fields)
        self.declared = self.size  # payload length which the repository's metadata gives (see gens: known finding)
        self.found = True  # whether segmentation is claimed to find the message
        self.crc_extra = self._crc_extra()

    def _crc_extra(self):
        crc = crc_accumulate((self.name + " ").encode())
        for f in self.wire:
            crc = crc_accumulate((f.type + " ").encode(), crc)
            crc = crc_accumulate((f.name + " ").encode(), crc)
            if f.array:
                crc = crc_accumulate([f.array], crc)
        return (crc & 0xFF) ^ (crc >> 8)

    def frame(self, payload, seq=0, sys_id=0, comp_id=0):
        assert len(payload) == self.size
        body = bytes([self.size, seq, sys_id, comp_id, self.id]) + payload
        return bytes([STX]) + body + struct.pack("<H", crc_accumulate(body + bytes([self.crc_extra])))

    def atoms(self):
        """(name, type, bit offset in payload, bit length) for every scalar on the air, arrays element by element"""
        out = []
        off = 0
        for f in self.wire:
            w = TYPE_SIZE[f.type]
            for i in range(f.elements):
                out.append((f, i, off * 8, w * 8))
                off += w
        return out


class Dialect:
    def __init__(self, xml_path):
        self.messages = {}
        root = ET.parse(xml_path).getroot()
        for m in root.iter("message"):
            fields = []
            ext = False
            for child in m:
                if child.tag == "extensions":
                    ext = True
                if child.tag == "field" and not ext:
                    fields.append(Field(child.get("name"), child.get("type")))
            msg = Message(int(m.get("id")), m.get("name"), fields)
            self.messages[msg.id] = msg

    def segment(self, buffer):
        """Greedy left to right framing: the list of (start, message, end)."""
        out = []
        i = 0
        n = len(buffer)
        while i + OVERHEAD <= n:
            m = self.match(buffer, i)
            if m is None:
                i += 1
            else:
                end = i + m.size + OVERHEAD
                out.append((i, m, end))
                i = end
        return out

    def match(self, buffer, i):
        """the message which is framed correctly at byte i, or None"""
        if buffer[i] != STX:
            return None
        msg = self.messages.get(buffer[i + 5])
        if msg is None or not msg.found or msg.size != buffer[i + 1]:
            return None
        end = i + OVERHEAD + msg.size
        if end > len(buffer):
            return None
        crc = crc_accumulate(buffer[i + 1:end - 2] + bytes([msg.crc_extra]))
        if struct.pack("<H", crc) != buffer[end - 2:end]:
            return None
        return msg

    def unclaimed(self, buffer):
        """whether a message of known wrong length in the metadata is framed by that length and a checksum which is right:
        what becomes of it is not claimed"""
        for i in range(len(buffer) - OVERHEAD + 1):
            if buffer[i] == STX:
                m = self.messages.get(buffer[i + 5])
                if m is not None and not m.found and buffer[i + 1] == m.declared:
                    end = i + OVERHEAD + m.declared
                    if end <= len(buffer) and struct.pack(
                            "<H", crc_accumulate(buffer[i + 1:end - 2] + bytes([m.crc_extra]))) == buffer[end - 2:end]:
                        return True
        return False

    def valid_header(self, h):
        return len(h) == HEADER and h[0] == STX and h[5] in self.messages and self.messages[h[5]].declared == h[1]


def load(repo):
    return Dialect(os.path.join(repo, "mavlink_utils", "HC_dialect.xml"))
