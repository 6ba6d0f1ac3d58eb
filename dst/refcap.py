"""Independent reference for what a redacted capture of a byte stream is."""
import re

from . import wire

MARK = wire.MARK
G = [("HR", 8, 5), ("HR", 13, 5)] + [("IR", b, 5) for b in (110, 114, 138, 234, 354, 474, 594, 714, 834, 954, 1627, 1841, 1846, 1848, 1851, 1855,
                                                           2066, 2071, 2076, 2081)]
MR_BASE, MR_COUNT = 60, 2
SAFE_WRITES = None  # every write a client transmits in these runs is a permitted one


def known_serial(s):
    return re.fullmatch(r"(?:[A-Z]{2}[0-9]{4}[A-Z]|[A-Z]{3}[0-9]{4})[0-9]{3}", s) is not None


def strict(b):
    s = b.decode("latin1")
    return b[:7] + b"000" if known_serial(s) else b"*" * 10


def lenient(vals):
    """Five registers holding a serial, or the same registers when they do not."""
    raw = b"".join(v.to_bytes(2, "big") for v in vals)
    s = raw.decode("latin1").replace("\x00", "").upper()
    if not known_serial(s) or s.endswith("000"):
        return vals
    out = (s[:7] + "000").encode().ljust(10, b"\x00")
    return [int.from_bytes(out[i:i + 2], "big") for i in range(0, 10, 2)]


def redact(frame, direction):
    """(bytes as captured, decodable?)"""
    b = frame[8:]
    if len(frame) < 8:
        return frame, False
    if frame[7] == 1:
        if len(b) < 11:
            return frame, False
        return frame[:8] + strict(b[:10]) + b[10:], True
    if len(b) < 10:
        return frame, False
    rest = b[10:]
    if len(rest) >= 10 and not any(rest[:7]) and rest[7] == 0x2C and direction == "rx":
        text, tail = rest[7:-2], rest[-2:]
        return frame[:8] + strict(b[:10]) + rest[:7] + re.sub(rb"[0-9]", b"0", text) + tail, True
    if len(rest) < 10:
        return frame, False
    err, func = bool(rest[9] & 0x80), rest[9] & 0x7F
    pos = 20
    inv = b""
    if direction == "rx":
        if len(b) < 30:
            return frame, False
        inv, pos = b[20:30], 30
    data = b[pos:]
    if direction == "rx" and func == 0:
        if len(data) < 126:
            return frame, False
        body, end = data[:124], pos + 126
    elif func == 6:
        if len(data) < 6:
            return frame, False
        body, end = data[:4], pos + 6
    elif func in (3, 4, 0x16):
        if len(data) < 6:
            return frame, False
        base, count = int.from_bytes(data[:2], "big"), int.from_bytes(data[2:4], "big")
        if direction == "rx" and not err:
            if count > 60 or len(data) < 6 + 2 * count:
                return frame, False
            vals = [int.from_bytes(data[4 + 2 * i:6 + 2 * i], "big") for i in range(count)]
            if func == 0x16:
                vals = [0 if MR_BASE <= base + i < MR_BASE + MR_COUNT else x for i, x in enumerate(vals)]
            else:
                t = {3: "HR", 4: "IR"}[func]
                for gt, gb, gn in G:
                    o = gb - base
                    if gt == t and o >= 0 and o + gn <= count:
                        vals[o:o + gn] = lenient(vals[o:o + gn])
            body, end = data[:4] + b"".join(v.to_bytes(2, "big") for v in vals), pos + 6 + 2 * count
        else:
            if direction == "tx" and not 0 < count <= 60:
                return frame, False
            body, end = data[:4], pos + 6
    else:
        return frame, False
    head = b[18:20] + (strict(inv) if inv else b"")
    out = strict(b[:10]) + b[10:18] + head + body + wire.check_code(head + body)
    assert len(out) == end
    return frame[:8] + out + b[end:], True


class Capture:
    def __init__(self, direction):
        self.dir, self.buf, self.frames, self.decodable, self.changed = direction, b"", 0, 0, 0

    def feed(self, chunk):
        self.buf += chunk
        out = b""
        while True:
            p = self.buf.find(MARK)
            if p < 0:
                n = max(len(self.buf) - 3, 0)
                out, self.buf = out + self.buf[:n], self.buf[n:]
                return out
            if p:
                out, self.buf = out + self.buf[:p], self.buf[p:]
            if len(self.buf) < 18:
                return out
            q = self.buf.find(MARK, 1)
            if 0 < q < 18:
                out, self.buf = out + self.buf[:q], self.buf[q:]
                continue
            n = int.from_bytes(self.buf[4:6], "big")
            if n > 300 or self.buf[6] > 1 or self.buf[7] not in (1, 2):
                out, self.buf = out + self.buf[:4], self.buf[4:]
                continue
            if len(self.buf) < 6 + n or any(MARK.startswith(self.buf[i:]) for i in range(15, min(18, len(self.buf)))):
                return out
            frame, self.buf = self.buf[:6 + n], self.buf[6 + n:]
            r, ok = redact(frame, self.dir)
            self.frames += 1
            self.decodable += ok
            self.changed += r != frame
            out += r

    def flush(self):
        b, self.buf = self.buf, b""
        return b
