"""The mock plant serves concurrent clients faithfully."""
import asyncio
import json
import os
import struct
import tempfile

from .. import wire
from ..gen import WRITE_REGS, net_cfg
from ..rng import keyed
from ..topo import TOPO_POOL, Topology
from ..world import PORT, World, caps_dict, host_of
from .p18 import compare, norm

RUNS = {"quick": 1000, "thorough": 15000}
RULE = ("a run counts when at least two connections to the mock plant were open at once; two runs are the same when their ordered event kinds "
        "coincide")
REAL = ("givenergy_modbus.testing.MockPlant with its server framer, codec, PDUs and cache, asyncio streams and start_server; real library clients "
        "next to scripted raw ones")
STUB = "event-loop selector and clock, TCP sockets and kernel buffers; raw scripted TCP clients"
ADAPTER, INV = "WF1234G567", "SA1234G567"
JUNK_REACH = 700  # bytes after which reception must have recovered from arbitrary garbage


# -- what is served --------------------------------------------------------------------
def random_spec(r):
    spec = {}
    for a in r.sample([0x11, 0x31, 0x32, 0x33, 0x50, 0x70, 0x01, 0x02, 0x05, 0xA0, 0x00, 0xFF], r.randrange(1, 6)):
        banks = {}
        for _ in range(r.randrange(1, 6)):
            base = r.choice((0, 60, 60, 120, 1000, 2040, 65500, r.randrange(60000)))
            n = min(r.choice((1, 5, 30, 60, 60, 60, 80, 120)), 65536 - base)
            banks[f"{r.choice(('HR', 'IR', 'IR', 'MR'))}:{base}"] = [r.choice((0, 0xFFFF, r.randrange(65536), r.randrange(65536))) for _ in range(n)]
        spec[str(a)] = banks
    return spec


def topo_spec(topo, seed):
    t = Topology(topo, seed)
    spec = {}
    for a, m in t.dev.items():
        banks = spec.setdefault(str(a), {})
        for typ, regs in m.items():
            run = []
            for reg in sorted(regs):
                if run and (reg != run[-1] + 1 or len(run) == 60):
                    banks[f"{typ}:{run[0]}"] = [regs[x] for x in run]
                    run = []
                run.append(reg)
            if run:
                banks[f"{typ}:{run[0]}"] = [regs[x] for x in run]
    return spec


def served(spec):
    """{(addr, type, register): value} and the set of devices."""
    out = {}
    for a, banks in spec.items():
        for k, vals in banks.items():
            typ, base = k.split(":")
            for i, x in enumerate(vals):
                out[(int(a), typ, int(base) + i)] = x
    return out, {int(a) for a in spec}


def capture_text(spec, seed, t):
    """A capture log of a session with that plant: reads of every bank twice, noise lines, bad checksums, arbitrary chunking."""
    r = keyed(seed, "capture")
    stream = []
    lines = []
    for rnd in range(2):
        items = [(int(a), *k.split(":"), v) for a, banks in spec.items() for k, v in banks.items()]
        r.shuffle(items)
        for a, typ, base, vals in items:
            func = {"HR": 3, "IR": 4, "MR": 0x16}[typ]
            if r.random() < 0.05:
                stream.append(wire.heartbeat(t.adapter, 1))
            if r.random() < 0.05:
                stream.append(wire.error_response(t.adapter, t._ser(0x11), a, func, int(base), len(vals)))
            if r.random() < 0.05:
                stream.append(wire.read_response(t.adapter, t._ser(0x11), a, func, int(base), [x ^ 5 for x in vals], crc=b"\x00\x00"))
            stream.append(wire.read_response(t.adapter, t._ser(0x11), a, func, int(base), vals))
    data = b"".join(stream) + wire.heartbeat(t.adapter, 1)[:r.randrange(18)]
    style = r.randrange(2)
    i = n = 0
    while i < len(data):
        k = r.choice((1, 7, 34, 100, 158, 300, 1000))
        n += 1
        ts = f"2026-01-01T00:{n // 60 % 60:02d}:{n % 60:02d}.{n // 3600:06d}Z"
        ts = f"2026-01-01T{n // 3600:02d}:{n // 60 % 60:02d}:{n % 60:02d}"
        lines.append(f"{ts} rx {data[i:i + k].hex()}" if style else f"rx: {data[i:i + k].hex()}")
        i += k
        if r.random() < 0.2:
            x = wire.read_request(0x11, 3, 0, 60).hex()
            lines.append(r.choice((f"{ts} tx {x}" if style else f"tx: {x}", "", "# comment", f"{ts} rx nothex" if style else "rx: nothex")))
    return "\n".join(lines) + "\n"


# -- plans -------------------------------------------------------------------------------
def some_request(r, spec, known):
    x = r.random()
    a, typ, reg = r.choice(known)
    func = {"HR": 3, "IR": 4, "MR": 0x16}[typ]
    if x < 0.6:
        base, n = r.choice([(int(k.split(":")[1]), len(v)) for k, v in spec[str(a)].items() if k.startswith(typ)])
        off = r.choice((0, 0, r.randrange(n)))
        return {"k": "req", "addr": a, "func": func, "base": base + off, "count": min(60, r.choice((n - off, n - off, r.randrange(1, n - off + 1))))}
    if x < 0.8:  # next to what is there
        return {"k": "req", "addr": a, "func": r.choice((3, 4, 4, 0x16)), "base": max(0, min(65535, reg + r.randrange(-60, 60))), "count": r.randrange(1, 61)}
    if x < 0.9:
        return {"k": "req", "addr": r.randrange(256), "func": r.choice((3, 4, 0x16)), "base": r.choice((0, 60)), "count": 60}
    return {"k": "write", "addr": r.choice((0x11, 0x11, a)), "reg": r.choice(WRITE_REGS), "val": r.randrange(65536)}


def noise(r, n):
    return bytes(r.choice([x for x in range(256) if x != 0x59]) for _ in range(n))


def junk(r):
    q = wire.read_request(r.randrange(256), r.choice((3, 4)), r.randrange(300), r.randrange(1, 61))
    k = r.randrange(6)
    if k == 0:
        return q[:r.randrange(1, len(q))]
    if k == 1:
        return wire.MARK + struct.pack(">HBB", r.randrange(65536), r.choice((0, 1, 1, 7)), r.choice((1, 2, 2, 9))) + r.randbytes(r.randrange(300))
    if k == 2:
        return r.randbytes(r.randrange(1, 600))
    if k == 3:
        b = bytearray(q)
        b[r.randrange(len(b))] ^= 1 << r.randrange(8)
        return bytes(b)
    if k == 4:
        return wire.MARK * r.randrange(1, 60)
    return bytes(0x59 if r.random() < 0.5 else r.choice((0, 1, 2)) for _ in range(r.randrange(1, 500)))


def bad(r):
    """A delimited frame that is not a request anyone needs to answer."""
    k = r.randrange(7)
    a = r.randrange(256)
    if k == 0:
        return wire.read_request(a, 4, 60, r.choice((0, 61, 1000, 65535)))
    if k == 1:
        return wire.transparent(ADAPTER, 8, a, 3, b"\x00\x00\x00\x3c", crc=b"\xde\xad")
    if k == 2:
        return wire.transparent(ADAPTER, 8, a, r.choice((1, 2, 5, 0x10, 0x17, 0x80, 0x83)), r.randbytes(r.choice((0, 4, 8, 40))))
    if k == 3:
        return wire.write_request(0x11, r.choice((0, 13, 21, 9999)), 1)
    if k == 4:
        return wire.transparent(ADAPTER, 8, a, 4, r.randbytes(r.choice((0, 1, 2, 3, 5, 9))))
    if k == 5:
        return wire.mbap(r.choice((1, 2)), r.randbytes(r.randrange(10, 60)).replace(b"\x59", b"\x58"))
    return wire.read_response(ADAPTER, INV, a, 4, 0, [r.randrange(1000) for _ in range(r.randrange(1, 61))])


def raw_client(r, spec, known, flood):
    items = []
    for _ in range(r.choice((1, 3, 10, 30))):
        x = r.random()
        if x < 0.75:
            items.append(some_request(r, spec, known))
        elif x < 0.82:
            items.append({"k": "hb", "typ": r.randrange(4)})
        elif x < 0.88:
            items.append({"k": "noise", "raw": noise(r, r.choice((1, 3, 17, 200, 5000))).hex()})
        elif x < 0.94:
            items.append({"k": "bad", "raw": bad(r).hex()})
        elif x < 0.95:
            items.append({"k": "junk", "raw": junk(r).hex()})
        else:
            items.append({"k": "sleep", "t": round(r.choice((0.01, 1, 60)) * r.random(), 3)})
    if flood:
        items.insert(r.randrange(len(items) + 1), {"k": "stall"})
        items.append(dict(some_request(r, spec, known), times=r.choice((50, 1500))))
        items += [some_request(r, spec, known), {"k": "sleep", "t": 5.0}]
        if r.random() < 0.7:
            items += [{"k": "unstall"}, some_request(r, spec, known)]
    if any(it["k"] == "junk" for it in items):  # traffic after which reception must have recovered, then a recognisable tail
        items += [{"k": "fill", "n": JUNK_REACH // 34 + 2}] + [dict(some_request(r, spec, known)) for _ in range(3)]
    for it in items:
        if r.random() < 0.3:
            it["cut"] = sorted(r.randrange(1, 40) for _ in range(r.choice((1, 2, 5))))
            it["gap"] = round(r.choice((0.0, 0.01, 2.0)) * r.random(), 4)
        if r.random() < 0.1:
            it["join"] = True  # leave together with the next one
    return {"op": "call", "name": "raw", "items": items, "end": r.choice(("quiet", "quiet", "eof", "rst", "midframe", "leave"))}


def gen(r, i, tier):
    if i < 2:
        return directed(r, i)
    mode = r.choice(("random", "random", "topo", "capture"))
    plan = {"mode": mode, "cfg": {"client": {"tx_message_wait": r.choice((0.0, 0.05)), "tx_jitter": 0.0}, **net_cfg(r), "seg_up": r.choice(("whole", "random", "bytes"))},
            "faults": [], "actors": [], "dongles": [{}], "horizon": 4000}
    plan["cfg"]["lat"] = [0.001, r.choice((0.002, 0.02))]
    if mode == "random":
        spec = random_spec(r)
        plan["verify"] = False
    else:
        plan["topo"] = r.choice(TOPO_POOL)
        plan["tseed"] = r.randrange(1 << 30)
        spec = topo_spec(plan["topo"], plan["tseed"])
        plan["verify"] = r.random() < 0.5 and not any(k.startswith("MR") for b in spec.values() for k in b)
    plan["spec"] = spec
    known = list(served(spec)[0])
    n = r.choice((1, 2, 3, 5))
    flood = r.random() < 0.1
    if flood:
        plan["cfg"]["seg"] = plan["cfg"]["seg_up"] = "whole"
    for c in range(n):
        ops = []
        for _ in range(r.choice((1, 1, 2, 4))):
            ops.append(raw_client(r, spec, known, flood and c == 0))
            if r.random() < 0.3:
                ops.append({"op": "sleep", "t": round(r.random(), 3)})
        plan["actors"].append({"client": 0, "start": round(r.choice((0, 1.0)) * r.random(), 3), "ops": ops})
    if mode != "random":
        for c in range(r.choice((0, 1, 1, 2))):
            det = [{"op": "connect"}, {"op": "detect", "timeout": 1.0, "retries": 0, "probe_timeout": 0.3, "probe_retries": 0}]
            ops = r.choice((det, det + [{"op": "load_config", "timeout": 1.0, "retries": 0}, {"op": "refresh", "timeout": 1.0, "retries": 0}]))
            if r.random() < 0.5:
                ops = ops + [{"op": "cmd", "reqs": [{"op": "write", "reg": r.choice(WRITE_REGS), "val": r.randrange(65536)}], "timeout": 1.0}]
            plan["actors"].append({"client": c + 1, "start": round(r.random(), 3), "ops": ops + [{"op": "close"}]})
    if r.random() < 0.3:
        ops = [{"op": "sleep", "t": round(r.choice((0.01, 0.5, 3, 60)) * r.random(), 3)}, {"op": "call", "name": "stop"}]
        if r.random() < 0.5:
            ops += [{"op": "sleep", "t": 100}, {"op": "call", "name": "start"}] + [raw_client(r, spec, known, False)]
        plan["actors"].append({"client": 0, "ops": ops})
    plan["clients"] = [{"d": 0} for _ in range(1 + max(a["client"] for a in plan["actors"]))]
    return plan


def directed(r, i):
    """The histories of the recorded findings, so that every run of the check meets them."""
    topo = next(t for t in TOPO_POOL if 0x32 not in Topology(t, 1).dev)
    req = {"k": "req", "addr": 0x32, "func": 4, "base": 60, "count": 60} if i == 0 else {"k": "req", "addr": 0x11, "func": 3, "base": 0, "count": 60}
    ops = [[{"op": "call", "name": "raw", "items": [dict(req)], "end": "leave" if i else "quiet"}] for _ in range(2)]
    if i:
        ops.append([{"op": "sleep", "t": 60.0}, {"op": "call", "name": "stop"}])
    return {"mode": "topo" if i else "capture", "cfg": {"client": {"tx_message_wait": 0.0, "tx_jitter": 0.0}, "lat": [0.001, 0.002], "seg": "whole", "seg_up": "whole"},
            "faults": [], "actors": [{"client": 0, "ops": o} for o in ops], "dongles": [{}], "horizon": 4000, "topo": topo, "tseed": 1,
            "spec": topo_spec(topo, 1), "verify": False, "clients": [{"d": 0}]}


# -- execution ---------------------------------------------------------------------------
class Raw(asyncio.Protocol):
    def __init__(self):
        self.data = bytearray()
        self.eof = self.lost = False
        self.last = 0.0

    def connection_made(self, transport):
        self.transport = transport

    def data_received(self, data):
        self.data += data
        self.last = asyncio.get_running_loop().time()

    def eof_received(self):
        self.eof = True
        return True

    def connection_lost(self, exc):
        self.lost = True


def encode(it):
    k = it["k"]
    if k == "req":
        return wire.read_request(it["addr"], it["func"], it["base"], it["count"])
    if k == "write":
        return wire.write_request(it["addr"], it["reg"], it["val"])
    if k == "hb":
        return wire.heartbeat(ADAPTER, it["typ"])
    if k == "fill":
        return wire.read_request(0xFE, 3, 7, 1) * it["n"]
    return bytes.fromhex(it["raw"])


async def raw(w, cl, op, rec):
    loop = w.loop
    p = Raw()
    rec["p"], rec["sent"], rec["done"] = p, [], False
    try:
        tr, _ = await loop.create_connection(lambda: p, host_of(0), PORT)
    except OSError as e:
        rec["refused"] = repr(e)
        return None
    conn = tr.conn
    rec["conn"], rec["opened"] = conn.id, w.now
    w.extra["free_tx"].add(conn.id)
    w.extra["most"] = max(w.extra.get("most", 0), sum(1 for k in w.net.conns if not k.closed[0]))
    stalled = False
    carry = b""
    for n, it in enumerate(op["items"]):
        if p.lost or p.eof or tr.is_closing():
            rec["cut_off"] = n
            break
        if it["k"] == "sleep":
            await asyncio.sleep(it["t"])
            continue
        if it["k"] in ("stall", "unstall"):
            stalled = it["k"] == "stall"
            (conn.stall if stalled else conn.unstall)(1)
            w.fired["client:" + it["k"]] += 1
            continue
        w.fired["item:" + it["k"]] += 1
        data = carry + encode(it) * it.get("times", 1)
        carry = b""
        rec["sent"].append(it)
        if it.get("join"):
            carry = data
            continue
        i = 0
        for c in it.get("cut", ()):
            if c > i and c < len(data):
                tr.write(data[i:c])
                i = c
                await asyncio.sleep(it["gap"])
        tr.write(data[i:])
    if carry:
        tr.write(carry)
    end = op["end"]
    if stalled and end != "rst":
        await asyncio.sleep(2.0)
        conn.unstall(1)
    w.fired["client:" + end] += 1
    if end == "rst":
        await asyncio.sleep(0.01 * (rec["id"] % 7))
        tr.abort()
    elif end == "midframe":
        tr.write(wire.read_request(0x11, 3, 0, 60)[:20])
        p.last = max(p.last, loop.time())
        while loop.time() - p.last < 5 and not p.lost:
            await asyncio.sleep(5)
        rec["done"] = True
        tr.abort()
    else:
        if end == "eof" and not p.lost and not tr.is_closing():
            tr.write_eof()
        p.last = max(p.last, loop.time())
        while loop.time() - p.last < 5 and not p.lost:
            await asyncio.sleep(5)
        rec["done"] = True
        rec["end_seen"] = p.eof or p.lost
        if end != "leave":
            tr.close()
    return None


async def stop(w, cl, op, rec):
    w.extra["stops"].append(w.now)
    w.fired["stop"] += 1
    await asyncio.wait_for(w.extra["mock"].aclose(), 600)
    w.extra["stopped"].append(w.now)
    w.extra["left"] = [k.id for k in w.net.conns if not k.closed[1]]
    w.extra["down"] = True


async def start(w, cl, op, rec):
    if w.extra.get("down"):
        await w.extra["mock"].start(host_of(0), PORT)
        w.extra["down"] = False


def build(plan):
    w = World(plan)
    w.extra.update(calls={"raw": raw, "stop": stop, "start": start}, free_tx=set(), stops=[], stopped=[], plan=plan)

    def setup(w):
        from givenergy_modbus.model.register import HR, IR, MR
        from givenergy_modbus.testing.mock_plant import MockPlant
        w.net.listeners.clear()
        w.net.servers.clear()
        cls = {"HR": HR, "IR": IR, "MR": MR}
        if plan["mode"] == "capture":
            t = Topology(plan["topo"], plan["tseed"])
            fd, path = tempfile.mkstemp(suffix=".log")
            try:
                with os.fdopen(fd, "w") as f:
                    f.write(capture_text(plan["spec"], plan["seed"], t))
                mock = MockPlant.from_capture(path)
            finally:
                os.unlink(path)
            w.extra["serials"] = (t.adapter, t._ser(0x11))
        else:
            spec = {int(a): {(cls[k.split(":")[0]], int(k.split(":")[1])): v for k, v in banks.items()} for a, banks in plan["spec"].items()}
            mock = MockPlant.from_spec(spec, verify=plan["verify"], inverter_serial=INV, adapter_serial=ADAPTER)
            w.extra["serials"] = (ADAPTER, INV)
        w.extra["mock"] = mock
        w.extra["before"] = contents(mock)
        w.loop.run_until_complete(mock.start(host_of(0), PORT))
    w.extra["setup"] = setup

    async def final(w):
        w.extra["after"] = contents(w.extra["mock"])
    w.extra["final"] = final
    return w


def contents(mock):
    return sorted((a, repr(sorted((type(k).__name__, k._idx if hasattr(k, "_idx") else str(k), v) for k, v in dict(c).items()))) for a, c in mock.devices.items())


# -- judgement ----------------------------------------------------------------------------
def expected(it, regs, devs):
    """[] or one (kind, ...) answer per copy of the item."""
    if it["k"] == "write":
        return [("write", it["addr"], it["reg"], it["val"])]
    if it["k"] != "req" or it["addr"] not in devs:
        return []
    typ = wire.RTYPE[it["func"]]
    vals = [regs.get((it["addr"], typ, it["base"] + n)) for n in range(it["count"])]
    if None in vals:
        return [("error", it["addr"], it["func"], it["base"], it["count"])]
    return [("read", it["addr"], it["func"], it["base"], it["count"], tuple(vals))]


def seen(f, serials):
    if f is None:
        return ("undecodable",)
    if f.kind not in ("read", "write") or not f.crc_ok:
        return ("unexpected", f.kind, f.crc_ok)
    if f.adapter != wire.ser(serials[0]) or f.inv != wire.ser(serials[1]):
        return ("wrong serials", f.adapter, f.inv)
    if f.kind == "write":
        return ("write", f.addr, f.base, f.value) if not f.error else ("write error", f.addr, f.base)
    if f.error:
        return ("error", f.addr, f.func, f.base, f.count)
    return ("read", f.addr, f.func, f.base, f.count, tuple(f.values))


def match(got, want, whole):
    """got equals want (a prefix of it unless whole), where want items are (answer, optional)."""
    states = {0}
    for g in got:
        nxt = set()
        for s in states:
            while s < len(want):
                a, opt = want[s]
                if opt:
                    nxt.add(s + 1)
                if not opt and a == g:
                    nxt.add(s + 1)
                if not opt:
                    break
                s += 1
        states = nxt
        if not states:
            return False
    return not whole or any(all(o for _, o in want[s:]) for s in states)


def check(w):
    v = []
    plan = w.extra["plan"]
    regs, devs = served(plan["spec"])
    w.extra["runs"] = 0
    stops = w.extra["stops"]
    if plan["mode"] == "capture":
        have = {a for a, c in w.extra["before"] if c != "[]"}
        if have != devs:
            return [{"what": "capture-devices", "served": sorted(have), "captured": sorted(devs)}]
    for rec in w.ops:
        op = rec["op"]
        if op["op"] == "call" and op["name"] == "raw":
            if rec.get("refused"):
                if not stops:
                    v.append({"what": "refused", "detail": rec["refused"]})
                continue
            if rec["out"] != "ok":
                v.append({"what": "harness", "detail": rec["out"]})
                continue
            hit = any(rec["opened"] <= t <= rec["t1"] for t in stops) or rec.get("cut_off") is not None and bool(stops)
            if rec.get("cut_off") is not None and not stops:
                v.append({"what": "connection-dropped", "op": op})
                continue
            if not stops and rec.get("end_seen") and op["end"] in ("quiet", "leave"):
                v.append({"what": "connection-dropped", "op": op})
            if not stops and op["end"] == "eof" and not rec.get("end_seen"):
                v.append({"what": "connection-kept", "op": op})
            try:
                frames, rest = wire.split_frames(bytes(rec["p"].data))
            except ValueError as e:
                v.append({"what": "malformed-answer", "detail": str(e)})
                continue
            complete = rec["done"] and not hit
            if rest and complete:
                v.append({"what": "partial-answer", "rest": rest.hex()})
            got = [seen(wire.parse_frame(f, "resp"), w.extra["serials"]) for f in frames]
            sent = rec["sent"]
            j = [n for n, it in enumerate(sent) if it["k"] == "junk"]
            first = j[0] if j else len(sent)
            want = []
            for it in sent[:first]:
                if it["k"] == "bad":
                    want.append((None, True))
                for _ in range(it.get("times", 1)):
                    want += [(a, False) for a in expected(it, regs, devs)]
            if j:
                # everything before the garbage in order, then anything, then the recognisable tail
                fill = max([n for n, it in enumerate(sent) if it["k"] == "fill"], default=None)
                n0 = next((n for n in range(len(got) + 1) if match(got[:n], want, True)), None)
                tail = [a for it in sent[fill + 1:] for _ in range(it.get("times", 1)) for a in expected(it, regs, devs)] if fill is not None and fill > j[-1] else []
                if complete and (n0 is None or tail and got[-len(tail):] != tail):
                    kind = ""
                    if plan["mode"] == "capture" and 0x32 not in devs and any(g[:2] == ("error", 0x32) for g in got):
                        real = [g for g in got if g[:2] != ("error", 0x32)]
                        n0 = next((n for n in range(len(real) + 1) if match(real[:n], want, True)), None)
                        kind = "phantom-0x32" if n0 is not None and (not tail or real[-len(tail):] == tail) else ""
                    v.append({"what": "answers", "around": "garbage", "kind": kind, "got": got[-6:], "want": want[:3], "tail": tail})
                continue
            if not match(got, want, complete):
                kind = ""
                if plan["mode"] == "capture" and 0x32 not in devs:  # is it that, and nothing else?
                    phantom = [x for it in sent[:first] for x in ([(None, True)] if it["k"] == "bad" else []) +
                               [(y, False) for y in expected(it, regs, devs | {0x32})] * it.get("times", 1)]
                    if match(got, phantom, complete):
                        kind = "phantom-0x32"
                k = next((n for n in range(len(got) + 1) if not match(got[:n], want, False)), len(got))
                v.append({"what": "answers", "kind": kind, "complete": complete, "count": [len(got), len(want)], "near": repr(got[max(0, k - 1):k + 1])[:400],
                          "want": repr(want[max(0, k - 1):k + 2])[:500]})
            w.extra["runs"] += len(got)
        elif op["op"] == "call" and op["name"] == "stop":
            # was a client still connected when (nearly) all of that time was up?
            off = w.loop.time() - w.now
            held = any(k.opened_at - off <= rec["t0"] and (k.closed_at[0] is None or k.closed_at[0] - off > rec["t1"] - 3) for k in w.net.conns)
            if rec["out"] != "ok":
                v.append({"what": "stop-failed", "outcome": rec["out"], "kind": "client-stays-connected" if held and rec["out"] == "TimeoutError" else "idle"})
            elif rec["t1"] - rec["t0"] > 5:
                v.append({"what": "stop-failed", "outcome": "late", "took": rec["t1"] - rec["t0"], "kind": "client-stays-connected" if held else "idle"})
        elif op["op"] == "call":
            if rec["out"] != "ok":
                v.append({"what": "start-failed", "outcome": rec["out"]})
        elif not stops:
            if rec["out"] != "ok" and not (op["op"] in ("load_config", "refresh", "cmd") and rec["out"] == "PlantNotDetected"):
                prior = {o["op"]["op"]: o["out"] for o in w.ops if o["client"] == rec["client"] and o["id"] < rec["id"]}
                if prior.get("connect") == "ok" and "close" not in prior and not (op["op"] == "cmd" and rec["out"] == "InvalidPduState"):
                    v.append({"what": "client-call-failed", "op": op["op"], "outcome": rec["out"], "detail": repr(rec.get("exc"))[:200]})
            elif op["op"] == "detect" and rec["out"] == "ok":
                t = Topology(plan["topo"], plan["tseed"])
                want, have = norm(t.expected_caps()), norm(rec["val"])
                d = compare(have, want)
                if d:
                    v.append({"what": "client-detected", "differs": d, "got": repr(have), "want": repr(want)})
    if w.extra.get("left"):
        v.append({"what": "stop-left-connections", "n": len(w.extra["left"])})
    if not w.hang and w.extra.get("after") != w.extra["before"]:
        d = [(a, b) for a, b in zip(w.extra["after"], w.extra["before"]) if a != b]
        v.append({"what": "served-data-changed", "detail": repr(d)[:300]})
    for t, msg, exc in w.loop_errors:
        v.append({"what": "background-error", "t": t, "detail": f"{msg}: {exc}"})
        break
    return v


def nontrivial(w):
    return w.extra.get("most", 0) >= 2


def probes(w):
    out = {"answers": w.extra.get("runs", 0), "mode:" + w.extra["plan"]["mode"]: 1}
    if w.extra.get("stopped"):
        out["stopped"] = 1
    return out


def simplify(plan):
    for ai, a in enumerate(plan["actors"]):
        for oi, op in enumerate(a["ops"]):
            n = len(op.get("items", ()))
            for k in (n // 2, n // 4, 1):
                if k:
                    for i in range(0, n, k):
                        c = json.loads(json.dumps(plan))
                        del c["actors"][ai]["ops"][oi]["items"][i:i + k]
                        yield c
