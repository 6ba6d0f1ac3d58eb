"""Independent codec for the GivEnergy wire dialect (shares no code with the package)."""
import struct

MARK = b"\x59\x59\x00\x01"

READ_HR, READ_IR, WRITE_HR, METER_PRODUCT = 3, 4, 6, 0x16
RTYPE = {READ_HR: "HR", READ_IR: "IR", METER_PRODUCT: "MR"}


def crc16(data: bytes) -> int:
    crc = 0xFFFF
    for b in data:
        crc ^= b
        for _ in range(8):
            crc = (crc >> 1) ^ 0xA001 if crc & 1 else crc >> 1
    return crc


_TAB = []
for _i in range(256):
    _c = _i
    for _ in range(8):
        _c = (_c >> 1) ^ 0xA001 if _c & 1 else _c >> 1
    _TAB.append(_c)


def crc16(data: bytes) -> int:  # noqa: F811 - table-driven version of the above
    crc = 0xFFFF
    for b in data:
        crc = (crc >> 8) ^ _TAB[(crc ^ b) & 0xFF]
    return crc


def check_code(data: bytes) -> bytes:
    """CRC16/Modbus as it appears on the wire (low byte first)."""
    c = crc16(data)
    return bytes((c & 0xFF, c >> 8))


def mbap(fid: int, body: bytes, uid: int = 1) -> bytes:
    return MARK + struct.pack(">HBB", len(body) + 2, uid, fid) + body


def ser(s: str) -> bytes:
    return s.encode("latin1").ljust(10, b"\x00")[:10]


def transparent(adapter: str, padding: int, addr: int, func: int, data: bytes, crc: bytes | None = None,
                inv: str | None = None) -> bytes:
    inner = bytes((addr, func)) + (ser(inv) if inv is not None else b"") + data
    return mbap(2, ser(adapter) + struct.pack(">Q", padding) + inner + (check_code(inner) if crc is None else crc))


def read_response(adapter, inv, addr, func, base, values, crc=None, count=None):
    n = len(values) if count is None else count
    return transparent(adapter, 0x8A, addr, func, struct.pack(">HH", base, n) + b"".join(v.to_bytes(2, "big") for v in values),
                       crc, inv)


def error_response(adapter, inv, addr, func, base, count_or_value, crc=None):
    return transparent(adapter, 0x12, addr, func | 0x80, struct.pack(">HH", base, count_or_value), crc, inv)


def write_response(adapter, inv, addr, reg, value, crc=None):
    return transparent(adapter, 0x8A, addr, WRITE_HR, struct.pack(">HH", reg, value), crc, inv)


def read_request(addr, func, base, count, adapter="AB1234G567", padding=8):
    return transparent(adapter, padding, addr, func, struct.pack(">HH", base, count))


def write_request(addr, reg, value, adapter="AB1234G567", padding=8):
    return transparent(adapter, padding, addr, WRITE_HR, struct.pack(">HH", reg, value))


def null_response(adapter, inv="", addr=0x11, words=62):
    return transparent(adapter, 0x8A, addr, 0, b"\x00\x00" * words, b"\x00\x00", inv)


def heartbeat(adapter, typ):
    return mbap(1, ser(adapter) + bytes((typ,)))


def lan_broadcast(adapter, ip="192.168.1.77", mask="255.255.255.0", gw="192.168.1.1"):
    text = f",{ip},{mask},{gw}\r\n\r\n".encode()
    body = ser(adapter) + b"\x00" * 7 + text
    return mbap(2, body + check_code(body))


class Frame:
    """Decoded view of one frame (either direction)."""

    __slots__ = ("raw", "fid", "adapter", "padding", "addr", "func", "error", "inv", "base", "count", "values",
                 "value", "crc_ok", "kind", "typ")

    def __init__(self):
        for s in self.__slots__:
            setattr(self, s, None)

    @property
    def rtype(self):
        return RTYPE.get(self.func)

    def key(self):
        if self.kind == "read":
            return (self.addr, self.func, self.base, self.count)
        if self.kind == "write":
            return (self.addr, self.func, self.base)
        return (self.kind,)

    def __repr__(self):
        if self.kind in ("read", "write"):
            return (f"<{self.kind} @0x{self.addr:02x} f{self.func} base={self.base} count={self.count} "
                    f"val={self.value} err={self.error} crc={self.crc_ok}>")
        return f"<{self.kind} {self.typ}>"


def parse_frame(raw: bytes, direction: str) -> Frame | None:
    """Decode a delimited frame; None when it is not well-formed.

    direction 'req': client to dongle, 'resp': dongle to client.
    """
    f = Frame()
    f.raw = raw
    if len(raw) < 8 or raw[:4] != MARK or len(raw) != 6 + int.from_bytes(raw[4:6], "big"):
        return None
    f.fid = raw[7]
    b = raw[8:]
    if f.fid == 1:
        if len(b) != 11:
            return None
        f.kind, f.adapter, f.typ = "heartbeat", b[:10], b[10]
        return f
    if f.fid != 2 or len(b) < 22:
        return None
    f.adapter, f.padding, f.addr = b[:10], int.from_bytes(b[10:18], "big"), b[18]
    func = b[19]
    f.error, f.func = bool(func & 0x80), func & 0x7F
    rest = b[20:]
    f.crc_ok = check_code(b[18:-2]) == b[-2:]
    if direction == "resp":
        if f.func == 0:
            f.kind = "null"
            return f
        if len(rest) < 12:
            return None
        f.inv, rest = rest[:10], rest[10:]
    if len(rest) < 6:
        return None
    f.base = int.from_bytes(rest[:2], "big")
    if f.func in (READ_HR, READ_IR, METER_PRODUCT):
        f.kind = "read"
        f.count = int.from_bytes(rest[2:4], "big")
        if direction == "resp" and not f.error:
            vals = rest[4:-2]
            if len(vals) != 2 * f.count:
                return None
            f.values = [int.from_bytes(vals[i:i + 2], "big") for i in range(0, len(vals), 2)]
        elif len(rest) != 6:
            return None
        return f
    if f.func == WRITE_HR:
        if len(rest) != 6:
            return None
        f.kind = "write"
        f.value = int.from_bytes(rest[2:4], "big")
        return f
    f.kind = "other"
    return f


def split_frames(buf: bytes):
    """Strict delimiter for an uncorrupted stream: (frames, rest). Raises on malformed data."""
    out = []
    i = 0
    while len(buf) - i >= 6:
        if buf[i:i + 4] != MARK:
            raise ValueError(f"stream not frame-aligned at offset {i}: {buf[i:i + 16].hex()}")
        n = 6 + int.from_bytes(buf[i + 4:i + 6], "big")
        if len(buf) - i < n:
            break
        out.append(buf[i:i + n])
        i += n
    return out, buf[i:]
