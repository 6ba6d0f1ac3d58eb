"""Frame recovery is independent of how bytes arrive."""
from .. import wire
from ..world import World

RUNS = {"quick": 2600, "thorough": 40000}
RULE = "a run counts when the stream contained noise or damaged frames; two runs are the same when their ordered event kinds coincide"
AD, INV = "WX1234G567", "SA1234G567"
RESYNC = 640  # bytes of intact traffic after which recovery must be complete: one swallowed frame (306) and one whole frame, rounded up
MAXBUF = 2048


def intact(r, uid):
    """(bytes, effect) of one well-formed frame."""
    x = r.random()
    if x < 0.25:
        t = r.randrange(1, 5)
        return wire.heartbeat(AD, t), ["hb", t]
    addr, func, base, count = r.choice(((0x11, 4, r.randrange(0, 200), 0), (0x11, 3, r.randrange(20, 200), 0), (r.randrange(1, 9), 4, 60, 30)))
    count = count or r.choice((1, 2, 5, 20, 60, 60))
    vals = [(uid * 7 + k * 13) % 20000 + 1 for k in range(count)]
    raw = wire.read_response(AD, INV, addr, func, base, vals)
    if x < 0.35:
        b = bytearray(raw)
        b[-1 - r.randrange(2)] ^= 1 << r.randrange(8)
        return bytes(b), ["crc", addr]
    return raw, ["read", addr, func, base, vals]


def clean_noise(r, n):
    """Bytes with no complete frame marker, but with pieces of one."""
    out = bytearray()
    while len(out) < n:
        x = r.random()
        if x < 0.2:
            out += r.choice((b"\x59", b"\x59\x59", b"\x59\x59\x00", b"\x59\x59\x59", b"\x00\x01", b"\x59\x59\x00\x02"))
        else:
            out.append(r.randrange(256))
    out = bytes(out[:n])
    while wire.MARK in out:
        out = out.replace(wire.MARK, b"\x58\x59\x00\x01")
    return out


def garbage(r, uid):
    k = r.choice(("random", "marked", "cut", "cut", "cuttail", "len", "del", "ins", "marks", "head", "long", "noise"))
    raw = intact(r, uid)[0]
    if k == "random":
        return bytes(r.randrange(256) for _ in range(r.randrange(1, 200)))
    if k == "marked":
        b = bytearray(r.randrange(256) for _ in range(r.randrange(10, 400)))
        for _ in range(r.randrange(1, 6)):
            p = r.randrange(len(b))
            b[p:p + 8] = wire.MARK + bytes((0, r.choice((0, 2, 11, 12, 13, 14, 28, 38, 128, 255)), r.choice((0, 1, 1, 2)), r.choice((1, 2, 2, 3))))
        return bytes(b)
    if k == "cut":
        return raw[:r.randrange(1, len(raw))]
    if k == "cuttail":
        return (raw if r.random() < 0.5 else wire.heartbeat(AD, 1))[:-r.randrange(1, 5)]
    if k == "len":
        b = bytearray(raw)
        b[4:6] = r.choice((0, 1, 5, 12, 14, 28, 100, 200, 299, 300, 301, 400, 65535)).to_bytes(2, "big")
        if r.random() < 0.3:
            b[6 + r.randrange(2)] = r.randrange(256)
        return bytes(b)
    if k == "del":
        b = bytearray(raw)
        for _ in range(r.randrange(1, 4)):
            del b[r.randrange(len(b))]
        return bytes(b)
    if k == "ins":
        b = bytearray(raw)
        for _ in range(r.randrange(1, 4)):
            b.insert(r.randrange(len(b)), r.randrange(256))
        return bytes(b)
    if k == "marks":
        return wire.MARK * r.randrange(1, 8) + bytes(r.randrange(20))
    if k == "head":
        return wire.MARK + bytes((r.randrange(2), r.randrange(256), 1, 2))
    if k == "long":
        return clean_noise(r, r.randrange(500, 2500))
    return clean_noise(r, r.randrange(1, 60))


def gen(r, i, tier):
    strict = r.random() < 0.4
    chunks = []  # [hex, effects]
    uid = r.randrange(1000)
    total = 0
    for _ in range(r.randrange(1, 6)):
        raw, eff = b"", []
        for _ in range(r.randrange(1, 9)):
            uid += 1
            x = r.random()
            if x < 0.5:
                b, e = intact(r, uid)
                eff.append(e)
            elif strict:
                b = clean_noise(r, r.choice((1, 3, 5, 17, 18, 19, 25, 60, 150, 700)))
            else:
                b = garbage(r, uid)
            raw += b
        chunks.append([raw.hex(), eff])
        total += len(raw)
    tail, eff = b"", []
    if not strict:
        while len(tail) < RESYNC:
            uid += 1
            tail += intact(r, uid)[0]
    for _ in range(r.randrange(3, 9)):
        uid += 1
        b, e = intact(r, uid)
        if e[0] == "crc":
            continue
        tail += b
        eff.append(e)
    chunks.append([tail.hex(), eff])
    faults, t = [], 0.5
    gap = r.choice((0.0, 0.002, 0.02))
    for h, _e in chunks:
        for d in (0, 1):
            faults.append({"at": round(t, 3), "act": "raw", "raw": h, "d": d, "intact": False})
        t += 12 + len(h) / 2 * gap
    end = [{"op": "sleep", "t": round(t + 2, 3)}, {"op": "call", "name": "state"}, {"op": "read", "addr": 0x11, "func": 3, "base": 100, "count": 5,
                                                                                      "timeout": 2.0, "retries": 0}]
    cfg = {"client": {"tx_message_wait": 0.0, "tx_jitter": 0.0}, "lat": [0.001, 0.002], "segs": [r.choice(("whole", "random", "bytes")),
           r.choice(("random", "random", "bytes"))], "seg_gap": gap, "coalesce": r.random() < 0.3}
    return {"cfg": cfg, "strict": strict, "chunks": chunks, "clients": [{"d": 0}, {"d": 1}],
            "dongles": [{"topo": {"model": "HYBRID_GEN1", "batteries": []}, "tseed": 5}] * 2,
            "actors": [{"client": c, "ops": [{"op": "connect"}] + end} for c in (0, 1)], "faults": faults, "horizon": t + 60}


def buffered(o):
    return sum(len(x) for x in vars(o).values() if isinstance(x, (bytes, bytearray, memoryview, list)))


def build(plan):
    w = World(plan)

    async def state(w, cl, op, rec):
        st = w.plant_state(cl)
        st["stamps"] = sorted(map(str, st["stamps"]))
        st["replies"] = [x.f.typ for x in w.tx if x.client == cl and x.f is not None and x.f.kind == "heartbeat"]
        rec["state"] = st

    def quiet(w):
        for c in w.clients:
            n = buffered(c.framer) if hasattr(c, "framer") else 0
            if n > MAXBUF and not w.extra.get("big"):
                w.extra["big"] = True
                w.violate("buffer-grows", buffered=n)
    w.quiet_hooks.append(quiet)
    w.extra["calls"] = {"state": state}
    return w


def check(w):
    v = []
    st = {r["client"]: r["state"] for r in w.ops if "state" in r}
    rd = [r for r in w.ops if r["op"]["op"] == "read"]
    want_t = w.plan["horizon"] - 58  # shrinking may have dropped a connect or the wait for the traffic to end
    if len(w.plan["actors"]) != 2 or any([o["op"] for o in a["ops"][:3]] != ["connect", "sleep", "call"] or a["ops"][1]["t"] < want_t - 1e-6
                                         for a in w.plan["actors"]):
        return v
    sent = [[f["raw"] for f in w.plan.get("faults", ()) if f.get("act") == "raw" and f["d"] == d] for d in (0, 1)]
    if len(st) == 2 and sent[0] == sent[1]:
        for k in st[0]:
            if st[0][k] != st[1][k]:
                v.append({"what": "depends-on-segmentation", "field": k, "a": str(st[0][k])[:300], "b": str(st[1][k])[:300], "segs": w.cfg["segs"]})
                break
    strict = w.plan["strict"]
    for cl, s in st.items():
        effs = [e for h, es in w.plan["chunks"][0 if strict else -1:] for e in (es if h in sent[cl] else [])]
        want, crc, hb = {}, {}, []
        for e in effs:
            if e[0] == "hb":
                hb.append(e[1])
            elif e[0] == "crc":
                crc[e[1]] = crc.get(e[1], 0) + 1
            else:
                for k, x in enumerate(e[4]):
                    want[(e[1], "HR" if e[2] == 3 else "IR", e[3] + k)] = x
        for (a, t, n), x in want.items():
            if s["caches"].get(a, {}).get((t, n)) != x:
                v.append({"what": "intact-frame-not-processed", "client": cl, "reg": [a, t, n], "want": x, "have": s["caches"].get(a, {}).get((t, n)),
                          "strict": strict})
                break
        if strict and (s["replies"] != hb or s["crc"] != crc):
            v.append({"what": "not-exactly-once", "client": cl, "replies": s["replies"], "heartbeats": hb, "crc": s["crc"], "bad": crc})
        if not strict and hb and s["replies"][-len(hb):] != hb:
            v.append({"what": "heartbeat-lost-after-resync", "client": cl, "replies": s["replies"], "heartbeats": hb})
    for r in rd:
        if r["out"] != "ok":
            v.append({"what": "reception-stopped", "client": r["client"], "out": r["out"]})
    return v


def probes(w):
    return {"strict": int(w.plan["strict"]), "bytes": sum(len(h) // 2 for h, _ in w.plan["chunks"])}
