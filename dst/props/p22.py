"""Captured traffic is complete and redacted."""
from .. import refcap, wire
from ..gen import client_cfg, keys_for, net_cfg, read_op, write_op, ERRNOS, WRITE_REGS
from ..topo import TOPO_POOL
from ..world import World
from . import p09

RUNS = {"quick": 3000, "thorough": 40000}
EPS = 1e-6
RULE = ("a run counts when a capture recorded at least three frames holding sensitive values; two runs are the same when their ordered event "
        "kinds coincide")
SERIALS = ["WX1234G567", "SA2345G678", "EMS1234567", "CE2250G\x0012", "\x00" * 10, "sa2345g678", "ZZ12345678", "\xe9\xff9999G\x01a", "SA2345G000",
           "WO1234G5\x00\x00", "1234567890", "AB1234G567"]
PAYLOAD = ["SA2345G678", "EMS1234567", "sa2345g678", "CE22\x0050G123", "BG2250G123", "VENDOR-123", "BG2250G000", "\x00" * 10, "12345\xff\xfe789"]


def words(s):
    b = s.encode("latin1").ljust(10, b"\x00")[:10]
    return [int.from_bytes(b[i:i + 2], "big") for i in range(0, 10, 2)]


def special(r):
    """One frame of a kind ordinary polling does not produce."""
    ad, inv = r.choice(SERIALS), r.choice(SERIALS)
    addr = r.choice((0x11, 0x31, 0x32, 0x01, 0x70, 0x50))
    k = r.choice(("window", "window", "window", "edge", "count", "error", "mr", "mr", "null", "ack", "func", "lan", "lan", "lanlike", "hb", "crc"))
    if k in ("window", "edge", "crc", "count"):
        t, b, n = r.choice(refcap.G)
        func = {"HR": 3, "IR": 4}[t]
        s = r.choice(PAYLOAD)
        if k == "edge":  # the group only partly inside, or touching the edge
            base = max(b + r.choice((-60, -57, -56, -55, -54, 0, 1, 4)), 0)
            count = r.choice((60, 60, 55, 5, 4))
        else:
            base, count = r.choice(((b - b % 60, 60), (b, 5), (max(b - 3, 0), r.randrange(8, 30)), (b - b % 20, 40)))
        vals = [r.randrange(65536) if r.random() < 0.3 else 0 for _ in range(count)]
        for j, x in enumerate(words(s)):
            if 0 <= b + j - base < count:
                vals[b + j - base] = x
        crc = bytes(r.randrange(256) for _ in range(2)) if k == "crc" else None
        raw = wire.read_response(ad, inv, addr, func, base, vals, crc, count=count + r.choice((-1, 1, 20, 300)) if k == "count" else None)
    elif k == "error":
        raw = wire.error_response(ad, inv, addr, r.choice((3, 4, 6, 0x16)), r.randrange(300), r.randrange(100))
    elif k == "mr":
        base, count = r.choice(((60, 2), (60, 1), (61, 1), (59, 3), (0, 60), (30, 40), (62, 4)))
        raw = wire.read_response(ad, inv, r.randrange(1, 9), 0x16, base, [r.randrange(1, 65536) for _ in range(count)])
    elif k == "null":
        raw = wire.null_response(ad, inv, addr)
        if r.random() < 0.5:
            b = bytearray(raw)
            for _ in range(5):
                b[r.randrange(38, len(b))] = r.randrange(256)
            raw = bytes(b)
    elif k == "ack":
        raw = wire.write_response(ad, inv, addr, r.randrange(400), r.randrange(65536))
    elif k == "func":
        raw = wire.transparent(ad, 0x8A, addr, r.choice((1, 5, 16, 0x41, 0x56)), bytes(r.randrange(256) for _ in range(r.randrange(0, 60))), inv=inv)
    elif k == "lan":
        ip = ".".join(str(r.randrange(256)) for _ in range(4))
        raw = wire.lan_broadcast(ad, ip, "255.255.255.0", r.choice(("192.168.1.1", "10.0.0.1,8.8.8.8", "", "1.1.1.1,host-7")))
    elif k == "lanlike":  # a comma where a broadcast has one, but nothing else like it
        raw = wire.mbap(2, wire.ser(ad) + bytes((0, 0, 0, 0, 0, r.choice((0, 1)), r.choice((0, 0x8A)), 0x2C)) + bytes(r.randrange(48, 58) for _ in range(r.randrange(0, 40))))
    else:
        raw = wire.heartbeat(ad, r.randrange(1, 89))
    if r.random() < 0.25 and k not in ("lan", "lanlike"):  # bytes after the decoded fields
        raw = wire.mbap(raw[7], raw[8:] + bytes(r.randrange(256) for _ in range(r.randrange(1, 12))))
    if r.random() < 0.2:
        raw = raw[:6] + b"\x00" + raw[7:]
    return raw


def gen(r, i, tier):
    topo = r.choice(TOPO_POOL)
    cfg = {"client": {**client_cfg(r), "tx_message_wait": r.choice((0.0, 0.02, 0.1))}, **net_cfg(r)}
    clean = r.random() < 0.3
    span = r.choice((3, 6, 12))
    faults = []
    for _ in range(r.randrange(1, 14)):
        n = r.choice((1, 1, 2, 3))
        raw = b"".join(special(r) for _ in range(n))
        if not clean:
            x = r.random()
            if x < 0.35:
                raw = p09.garbage(r, r.randrange(1000)) + raw
            elif x < 0.45:
                raw = raw[:-r.randrange(1, min(len(raw), 30))]
            elif x < 0.55:
                raw = wire.MARK[:r.randrange(1, 4)] + raw
            elif x < 0.62:
                raw += wire.MARK[:r.randrange(1, 4)]
        faults.append({"act": "raw", "raw": raw.hex(), "intact": False, "at": round(r.uniform(0.05, span), 3)})
        if not clean and r.random() < 0.2:  # the link dies soon after, perhaps inside the frame
            faults.append({"act": r.choice(("eof", "rst", "etimedout")), "errno": r.choice(ERRNOS), "at": round(faults[-1]["at"] + r.uniform(0, 0.2), 4)})
    keys = keys_for(topo)
    r.shuffle(keys)
    life = [{"op": "connect"}]
    for _ in range(r.choice((0, 1, 1, 2, 4))):
        life += [{"op": "sleep", "t": round(r.uniform(0.1, 3), 3)}] + r.choice(([{"op": "close"}], [])) + [{"op": "connect"}]
    actors = [{"ops": life}]
    for _ in range(r.randrange(1, 4)):
        ops = []
        for _ in range(r.randrange(1, 8)):
            if r.random() < 0.15:
                ops.append(write_op(r.choice(WRITE_REGS), r.randrange(60000), 0.5, 0))
            else:
                ops.append(read_op(r.choice(keys), r.choice((0.3, 0.6)), r.randrange(2)))
            if r.random() < 0.5:
                ops.append({"op": "sleep", "t": round(r.uniform(0, 1), 3)})
        actors.append({"start": round(0.02 + r.random(), 3), "ops": ops})
    caps, t = [], r.choice((0.0, 0.0, 0.3)) * r.random()
    while t < span:
        d = round(r.choice((0.05, 0.5, 2.0, span)) * (0.5 + r.random()), 4)
        op = {"op": "capture", "duration": d}
        if r.random() < 0.2:
            op["sink_raises"] = r.randrange(1, 4)
        if r.random() < 0.2:
            op["cancel_after"] = round(r.random() * d, 4)
        caps += [op, {"op": "sleep", "t": round(r.choice((0, 0.3)) * r.random(), 4)}]
        t += d
    actors.append({"start": round(r.choice((0.0, 0.0, 0.5)) * r.random(), 4), "ops": caps})
    for _ in range(r.choice((0, 0, 3, 6))):
        k = r.choice(("drop", "crc", "null", "unsol", "lan", "dup", "flip", "trunc", "partial_eof", "garbage", "err") if not clean else
                     ("drop", "crc", "null", "unsol", "lan", "dup", "err"))
        f = {"req": r.randrange(20), "act": k}
        if k in ("trunc", "partial_eof"):
            f["frac"] = round(r.uniform(0.05, 0.95), 2)
        if k == "garbage":
            f["n"] = r.randrange(1, 300)
        faults.append(f)
    return {"cfg": cfg, "clean": clean, "dongles": [{"topo": topo, "lat": [0.004, r.choice((0.01, 0.1))]}], "actors": actors, "faults": faults,
            "horizon": 4000, "settle": 1.0}


def build(plan):
    w = World(plan)
    w.extra["record_rx"] = True
    return w


def cuts(chunks, lo, hi):
    """Offsets at which reading may have stood at an instant: after each delivery in the interval, or a whole read further."""
    out, off = set(), 0
    before = 0
    for t, b in chunks:
        if t < lo:
            before = off + len(b)
        elif t <= hi:
            n = len(b)
            for k in range(0, n, 300):
                out.add(off + k)
            out.add(off + n)
        off += len(b)
    out.add(before)
    # reads of 300 over several deliveries of one instant
    top = max(out)
    for o in list(out):
        while o + 300 < top:
            o += 300
            out.add(o)
    return sorted(out)


def explain(w, o, have):
    """(does some way of reading explain the rx bytes?, statistics of the best reading)"""
    t0, t1 = o["t0"], o["t1"]
    conns = []
    for cid, c in sorted(w.conn_info.items()):
        if c["client"] != o["client"] or c["open"] is None:
            continue
        rx = [(t, b) for t, b in w.extra.get("rxbytes", {}).get(cid, [])]
        if not rx:
            continue
        data = b"".join(b for _, b in rx)
        dead = min([t for t in (c["lost_at"], c["closed"][0]) if t is not None] or [1e18])
        s = cuts(rx, t0 - EPS, t0 + EPS) if rx[0][0] <= t0 + EPS else [0]
        end = min(t1, dead)
        e = cuts(rx, end - EPS, end + EPS) if rx[-1][0] >= end - EPS else [len(data)]
        conns.append((data, s, e))
    stats = {"frames": 0, "decodable": 0, "changed": 0, "far": 0}
    memo = set()

    def go(k, pos):
        if k == len(conns):
            return pos == len(have)
        if (k, pos) in memo:
            return False
        data, ss, es = conns[k]
        for s in ss:
            for e in es:
                if e < s:
                    continue
                c = refcap.Capture("rx")
                out = c.feed(data[s:e])
                out += c.flush()
                if have[pos:pos + len(out)] == out:
                    stats["far"] = max(stats["far"], pos + len(out))
                    if go(k + 1, pos + len(out)):
                        for f in ("frames", "decodable", "changed"):
                            stats[f] += getattr(c, f)
                        return True
                else:
                    n = next((i for i in range(len(out)) if out[i:i + 1] != have[pos + i:pos + i + 1]), len(out))
                    stats["far"] = max(stats["far"], pos + n)
        memo.add((k, pos))
        return False
    return go(0, 0), stats


def unbroken(w, o):
    """Did every connection's reception during the capture consist of whole frames?"""
    for cid, c in w.conn_info.items():
        data = b"".join(b for t, b in w.extra.get("rxbytes", {}).get(cid, []) if t <= o["t1"])
        try:
            if wire.split_frames(data)[1]:
                return False
        except ValueError:
            return False
        if any(abs(t - x) < EPS for t, _ in w.extra.get("rxbytes", {}).get(cid, []) for x in (o["t1"], c["lost_at"], c["closed"][0]) if x is not None):
            return False
    return True


def check(w):
    v = []
    w.extra["changed"] = 0
    secrets = set()
    for d in w.dongles:
        secrets |= {x for x in (d.topo.adapter, getattr(d.topo, "inv", None)) if x}
    for o in w.ops:
        if o["op"]["op"] != "capture" or "sink" not in o or o["t1"] is None or o["out"] == "RuntimeError":
            continue
        tx = b"".join(x[3] for x in o["sink"] if x[2] == "tx")
        rx = b"".join(x[3] for x in o["sink"] if x[2] == "rx")
        mine = [x for x in w.tx if x.client == o["client"] and o["s0"] < x.seq < o["s1"]]
        early = [x for x in mine if x.t <= o["t0"] + EPS]
        late = [x for x in mine if x.t >= o["t1"] - EPS]
        wants = []
        for i in range(len(early) + 1):  # transmissions at the very instant of the start or the end may be in or out
            for j in range(len(late) + 1):
                ref = refcap.Capture("tx")
                wants.append(b"".join(ref.feed(x.raw) for x in mine[i:len(mine) - j]) + ref.flush())
                if (i, j) == (0, 0):
                    w.extra["changed"] += ref.changed
        if tx not in wants:
            want = wants[0]
            n = next((i for i in range(max(len(tx), len(want))) if tx[i:i + 1] != want[i:i + 1]), -1)
            v.append({"what": "tx-capture-differs", "at": n, "want": want[max(n - 20, 0):n + 60].hex(), "have": tx[max(n - 20, 0):n + 60].hex(), "op": o["op"]})
        ok, st = explain(w, o, rx)
        if not ok:
            n = st["far"]
            v.append({"what": "rx-capture-differs", "at": n, "have": rx[max(n - 20, 0):n + 60].hex(), "len": len(rx), "op": o["op"]})
        w.extra["changed"] += st["changed"]
        w.extra.setdefault("st", []).append(st)
        if w.plan.get("clean") and all(c["open"] is None or c["open"] > o["t0"] or c["client"] != o["client"] for c in w.conn_info.values()):
            for s in sorted(secrets):
                if len(s) == 10 and not s.endswith("000") and s.encode("latin1") in rx and unbroken(w, o):
                    v.append({"what": "serial-in-capture", "serial": s})
        if any(not o["s0"] < x[1] <= o["s1"] for x in o["sink"]):
            v.append({"what": "sink-called-outside-capture", "op": o["op"]})
    return v


def nontrivial(w):
    return w.extra.get("changed", 0) >= 3


def probes(w):
    n = [s for s in w.extra.get("st", [])]
    return {"frames": sum(s["frames"] for s in n), "decodable": sum(s["decodable"] for s in n), "redacted": w.extra.get("changed", 0)}
