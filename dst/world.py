"""Executes one plan: real clients against simulated dongles on a simulated network and clock."""
import asyncio
import collections
import contextvars
import gc
import hashlib
import re
import logging
import os
import traceback

from . import env, wire
from .rng import keyed, u
from .simloop import SimDeadlock, SimLoop, SimNet, SimStepLimit
from .topo import LV_BATT, Topology

PORT = 8899
cur_client = contextvars.ContextVar("cur_client", default=None)
cur_op = contextvars.ContextVar("cur_op", default=None)  # the operation on whose behalf code runs; inherited by tasks it creates

SUSPICIOUS = {28: 0x4C32, 30: 0xA119, 31: 0x34EA, 32: 0xE77F, 33: 0xD475, 35: 0x4500, 40: 0xE4F9, 41: 0xC0A8, 43: 0xC0A8,
              46: 0xC5E9, 50: 0x60EF, 51: 0x8018, 52: 0x43E0, 53: 0xF6CE, 56: 0x080A, 58: 0xFCC1, 59: 0x661E}

FRAG_CAP = 300  # bytes the client reads at once


class Hung(Exception):
    pass


def host_of(d):
    return f"10.1.0.{d + 1}"


class TxFrame:
    __slots__ = ("i", "conn", "client", "t", "seq", "raw", "f", "dropped", "recv_t")


class RxFrame:
    """A chunk the dongle put on a connection: usually one frame, possibly noise."""
    __slots__ = ("i", "conn", "d", "t", "raw", "f", "tag", "req", "end", "td", "seqd", "intact")


class World:
    def __init__(self, plan):
        self.plan = plan
        self.seed = plan["seed"]
        self.cfg = plan.get("cfg", {})
        self.events = []
        self.seq = 0
        self.ops = []
        self.rx = []
        self.applied = []  # (seq, t, device, register, value) of every write a device carried out
        self.tx = []
        self.reqs = []
        self.logs = []
        self.loop_errors = []
        self.harness_error = None  # the simulator's own failure, never the code's
        self.conn_info = {}
        self.fired = collections.Counter()
        self.violations = []
        self.monitors = []
        self.quiet_hooks = []
        self.connect_n = collections.Counter()
        self.conn_n = collections.Counter()
        self.healthy = False
        self.rx_stream = {}
        self.stream_off = {}
        self.deliv_off = {}
        self.next_end = {}
        self.by_conn_pending = {}
        self.tx_buf = {}
        self.extra = {}
        self.on_frame = []
        self.hang = None
        self.sink_calls = []

    # -- utilities ------------------------------------------------------------
    def tick(self):
        self.seq += 1
        return self.seq

    @property
    def now(self):
        return self.loop._now - self.loop.t0

    def ev(self, *a):
        self.events.append((self.tick(), round(self.now, 9)) + a)

    def violate(self, what, **kw):
        self.violations.append({"what": what, "t": round(self.now, 6), **kw})

    def wall(self):
        return self.clock.wall()

    # -- net policy -------------------------------------------------------------
    def connect_policy(self, host, port):
        cl = cur_client.get()
        d = int(host.rsplit(".", 1)[1]) - 1
        dg = self.dongles[d]
        base = {"kernel_cap": self.cfg.get("kernel_cap", 65536), "hiwater": self.cfg.get("hiwater", 65536),
                "coalesce": self.cfg.get("coalesce", False)}
        delay = 0.001 + 0.01 * u(self.seed, "connect", dg.rid, self.connect_n[d])
        self.connect_n[d] += 1
        if self.healthy:
            return ("ok", delay, {**base, "kernel_cap": 65536, "hiwater": 65536})
        for f in self.faults:
            if f.get("connect") == dg.connects and f.get("d", 0) == d:
                act = f["act"]
                dg.connects += 1
                self.fired["connect:" + act] += 1
                if act == "hang":
                    return ("hang", 0, base)
                if act == "refuse":
                    return ("refuse", f.get("delay", delay), base)
                if act == "slow":
                    return ("ok", f["delay"], base)
                if act == "oserror":
                    return (OSError(f.get("errno", 113), "No route to host"), f.get("delay", delay), base)
        dg.connects += 1
        if dg.down:
            self.fired["connect:down"] += 1
            return ("refuse" if dg.down == "refuse" else "hang", delay, base)
        return ("ok", delay, base)

    def connect_outcome(self, what):
        self.ev("connect_fail", what)

    def on_connect(self, conn):
        cl = cur_client.get()
        d = int(conn.addr[0].rsplit(".", 1)[1]) - 1
        conn.client, conn.dongle = cl, d
        conn.key = (self.dongles[d].rid, self.conn_n[d])
        self.conn_n[d] += 1
        self.conn_info[conn.id] = {"client": cl, "d": d, "open": self.now, "open_seq": self.tick(), "conn": conn,
                                   "closed": [None, None], "lost_at": None, "lost_seq": None, "lost_kind": None}
        self.stream_off[conn.id] = 0
        self.deliv_off[conn.id] = 0
        self.by_conn_pending[conn.id] = collections.deque()
        self.tx_buf[conn.id] = bytearray()
        self.ev("connect", conn.id, cl, d)

    def latency(self, conn, side):
        lo, hi = self.cfg.get("lat", (0.002, 0.01))
        conn.nseg[side] += 1
        return lo + (hi - lo) * u(self.seed, "lat", conn.key, side, conn.nseg[side])

    def segment(self, conn, side, data):
        lat = self.latency(conn, side)
        mode = (self.cfg["segs"][conn.dongle] if "segs" in self.cfg else self.cfg.get("seg", "whole")) if side == 1 else self.cfg.get("seg_up", "whole")
        if mode == "whole" or len(data) < 2:
            return [(data, lat)]
        if mode == "bytes":
            return [(data[i:i + 1], lat + 0.00001 * i) for i in range(len(data))]
        r = keyed(self.seed, "seg", conn.key, side, conn.nseg[side])
        out = []
        i = 0
        t = lat
        gap = self.cfg.get("seg_gap", 0.002)
        while i < len(data):
            n = r.choice((1, 2, 3, 5, 7, 8, 17, 18, 19, 20, 26, 40, 64, 150, 300))
            out.append((data[i:i + n], t))
            i += n
            t += gap * r.random()
        return out

    def on_write(self, conn, side, data, dropped):
        if side == 1 or conn.id in self.extra.get("free_tx", ()):
            return
        seq = self.tick()
        buf = self.tx_buf[conn.id]
        if not buf:
            self.extra[("txstart", conn.id)] = (self.now, seq)
        buf += data
        try:
            frames, rest = wire.split_frames(bytes(buf))
        except ValueError as e:
            self.violate("malformed-transmission", conn=conn.id, detail=str(e))
            buf.clear()
            return
        t, s = self.extra[("txstart", conn.id)]
        for raw in frames:
            x = TxFrame()
            x.i, x.conn, x.client, x.t, x.seq, x.raw, x.dropped, x.recv_t = len(self.tx), conn.id, conn.client, t, s, raw, dropped, None
            x.f = wire.parse_frame(raw, "req")
            self.tx.append(x)
            self.events.append((seq, round(t, 9), "tx", conn.id, raw.hex()))
            for m in self.monitors:
                m("tx", x)
            t, s = self.now, seq
        self.tx_buf[conn.id] = bytearray(rest)
        if rest:
            self.extra[("txstart", conn.id)] = (t, s)

    def on_deliver(self, conn, side, item):
        if side != 0:
            return
        ci = self.conn_info[conn.id]
        ct = conn.t[0]
        if ct is not None and (ct._closing or ct._conn_lost):
            # the client has already closed its end: nothing reaches it any more
            if isinstance(item, (bytes, bytearray)):
                self.deliv_off[conn.id] += len(item)
                q = self.by_conn_pending[conn.id]
                while q and q[0].end <= self.deliv_off[conn.id]:
                    q.popleft()
            return
        if not isinstance(item, (bytes, bytearray)):
            kind = "eof" if item is None else type(item).__name__
            if ci["lost_at"] is None:
                ci["lost_at"], ci["lost_seq"], ci["lost_kind"] = self.now, self.tick(), kind
            self.ev("lost", conn.id, kind)
            return
        self.deliv_off[conn.id] += len(item)
        if self.extra.get("record_rx"):
            self.extra.setdefault("rxbytes", {}).setdefault(conn.id, []).append((self.now, bytes(item)))
        off = self.deliv_off[conn.id]
        self.ev("rxseg", conn.id, len(item))
        q = self.by_conn_pending[conn.id]
        while q and q[0].end <= off:
            x = q.popleft()
            x.td, x.seqd = self.now, self.tick()
            self.ev("rx", conn.id, x.tag + (":%s" % (x.f.key(),) if x.f else ""), x.raw.hex())
            for m in self.monitors:
                m("rx", x)
            for cb in self.on_frame:
                cb(x)

    def on_side_closed(self, conn, side):
        ci = self.conn_info[conn.id]
        ci["closed"][side] = self.now
        self.ev("closed", conn.id, side)
        if side == 1:
            self.dongles[conn.dongle].drop(conn)

    # -- run --------------------------------------------------------------------
    def client_kwargs(self, i):
        kw = dict(self.cfg.get("client", {}))
        kw.update(self.plan.get("clients", [{}])[i].get("kw", {}))
        return kw

    def run(self):
        env.load()
        from givenergy_modbus.client.client import Client
        from givenergy_modbus.model.plant import Plant

        self.loop = loop = SimLoop(self.seed, max_iterations=self.cfg.get("max_iter", 3_000_000))
        loop.set_exception_handler(self._exc_handler)
        self.net = SimNet(loop, self)
        self.faults = list(self.plan.get("faults", []))
        clients = self.plan.get("clients", [{}])
        dongles = self.plan.get("dongles", [{}])
        with env.active(loop, self.seed & 0xFFFFFFFF, self._log, wall_cap=self.cfg.get("wall_cap", 90)) as clock:
            self.clock = clock
            self.dongles = [Dongle(self, d, spec) for d, spec in enumerate(dongles)]
            self.clients = []
            for i, c in enumerate(clients):
                tok = cur_client.set(i)
                cl = Client(host=host_of(c.get("d", 0)), port=PORT, **self.client_kwargs(i))
                self.clients.append(cl)
                cur_client.reset(tok)
            loop.quiescent_hook = self._quiet
            try:
                if self.extra.get("setup"):
                    self.extra["setup"](self)
                loop.run_until_complete(self._main())
            except SimDeadlock as e:
                self.hang = f"deadlock: {e}"
            except SimStepLimit as e:
                self.hang = f"livelock: {e}"
            except env.WallTimeout:
                self.hang = f"no progress: the run did not finish within its real-time cap (t={self.now:.3f})"
            finally:
                self.end_time = self.now
                try:
                    loop.quiescent_hook = None
                    self._teardown()
                except (SimDeadlock, SimStepLimit, env.WallTimeout):
                    pass
        return self

    def _teardown(self):
        loop = self.loop
        for t in sorted(asyncio.all_tasks(loop), key=task_order):
            t.cancel()
        n0 = loop.iterations
        loop.max_iterations = max(loop.max_iterations, n0 + 5000)
        self.tearing_down = True

        async def _nop():
            for _ in range(5):
                await asyncio.sleep(0)
        if not self.hang:
            loop.run_until_complete(_nop())
        self.loop.set_exception_handler(lambda *_a: None)
        loop._ready.clear()
        loop._scheduled.clear()
        loop._net.clear()
        loop.close()
        self.dongles_done = True

    def finish(self):
        """Release references; collect what the run left behind."""
        gc.collect()

    tearing_down = False

    def _exc_handler(self, loop, ctx):
        if self.tearing_down:
            return
        e = ctx.get("exception")
        files, tb = [], getattr(e, "__traceback__", None)
        while tb:
            files.append(tb.tb_frame.f_code.co_filename)
            tb = tb.tb_next
        if files and "/dst/" in files[-1] and not any("givenergy_modbus" in f for f in files):
            self.harness_error = "".join(traceback.format_exception(e))
        self.loop_errors.append((self.now, ctx.get("message"), repr(e)))
        self.ev("loop_error", ctx.get("message"), type(e).__name__)

    def _log(self, record):
        if record.name == "asyncio":
            return
        try:
            msg = record.getMessage()
        except Exception as e:  # noqa: BLE001
            msg = f"<log formatting error {e!r}>"
        self.logs.append((self.now, record.levelno, msg, cur_client.get()))
        if record.levelno >= logging.WARNING:
            self.ev("log", record.levelno, hashlib.blake2b(re.sub(r" at 0x[0-9a-f]+", "", msg).encode(), digest_size=6).hexdigest())

    def _quiet(self):
        for h in self.quiet_hooks:
            h(self)

    async def _main(self):
        loop = self.loop
        for f in self.faults:
            if "at" in f:
                loop.net_at(loop.t0 + f["at"], self._timed, f)
        self.tasks = []
        self.named = {}
        self.gates = collections.defaultdict(loop.create_future)
        for ai, actor in enumerate(self.plan["actors"]):
            self.tasks.append(loop.create_task(self._actor(ai, actor), name=f"actor{ai}"))
        horizon = self.plan.get("horizon", 600)
        if self.tasks:
            done, pending = await asyncio.wait(self.tasks, timeout=horizon)
        else:
            pending = ()
        self.horizon_hit = bool(pending)
        for t in self.tasks:
            if t.done() and not t.cancelled() and t.exception() is not None:
                raise t.exception()
        for r in self.ops:
            if r["t1"] is None:
                r["out"] = "HUNG"
        if self.plan.get("settle"):
            await asyncio.sleep(self.plan["settle"])
        self.final = {}
        if self.extra.get("final"):
            await self.extra["final"](self)

    def _timed(self, f):
        if self.healthy and f.get("act") not in ("raw", "push"):
            return
        act = f["act"]
        dg = self.dongles[f.get("d", 0)]
        self.fired["at:" + act] += 1
        self.ev("timed", act)
        if act == "jump":
            self.loop.jump(f["s"])
        elif act == "skew":
            self.clock.skew += f["s"]
        elif act == "down":
            dg.down = f.get("how", "refuse")
        elif act == "up":
            dg.down = None
        elif act == "silent":
            dg.silent = True
        elif act == "talk":
            dg.silent = False
        else:
            dg.on_all(f)

    # -- operations --------------------------------------------------------------
    async def _actor(self, ai, actor):
        cl = actor.get("client", 0)
        cur_client.set(cl)
        if actor.get("start"):
            await asyncio.sleep(actor["start"])
        for op in actor["ops"]:
            await self._op(ai, cl, op)

    async def _op(self, ai, cl, op):
        k = op["op"]
        if k == "sleep":
            await asyncio.sleep(op["t"])
            return
        if k == "spawn":
            async def go():
                for o in op["do"]:
                    await self._op(ai, cl, o)
            t = self.loop.create_task(go(), name=f"spawn{op['id']}")
            self.named[op["id"]] = t
            self.tasks.append(t)
            return
        if k == "cancel":
            t = self.named.get(op["id"])
            if t is not None and not t.done():
                t.cancel()
                self.fired["cancel"] += 1
                self.ev("cancel", op["id"])
            return
        if k == "join":
            t = self.named.get(op["id"])
            if t is not None and not t.done():
                await asyncio.wait([t])
            return
        if k == "heal":
            self.heal()
            return
        if k == "skew":
            self.clock.skew += op["s"]
            self.fired["clock:skew"] += 1
            return
        if k == "fault":
            self._timed(op)
            return
        if k == "snap":
            self.extra.setdefault("snaps", []).append((self.now, self.extra["snap_fn"](self)))
            return
        rec = {"id": len(self.ops), "actor": ai, "client": cl, "op": op, "t0": self.now, "s0": self.tick(), "t1": None, "s1": None,
               "out": None, "val": None}
        self.ops.append(rec)
        self.ev("op", rec["id"], k)
        cur_op.set(rec)
        try:
            if "cancel_after" in op:
                rec["val"] = await self._with_cancel(self._call(cl, op, rec), op["cancel_after"], rec)
            else:
                rec["val"] = await self._call(cl, op, rec)
            rec["out"] = "ok"
        except asyncio.CancelledError:
            t = asyncio.current_task()
            rec["out"] = "CancelledError"
            if t.cancelling() and not rec.get("self_cancelled"):
                rec["out"] = "cancelled-by-plan"
                self._end(rec)
                raise
        except BaseException as e:  # noqa: BLE001
            if isinstance(e, (KeyboardInterrupt, SystemExit, SimDeadlock, SimStepLimit)):
                raise
            rec["out"] = type(e).__name__
            rec["exc"] = e
            rec["is"] = [c.__name__ for c in type(e).__mro__]
        self._end(rec)

    def _end(self, rec):
        rec["t1"], rec["s1"] = self.now, self.tick()
        cl = self.clients[rec["client"]]
        rec["connected_after"] = cl.connected
        self.ev("op_end", rec["id"], rec["out"])
        for m in self.monitors:
            m("end", rec)

    async def _with_cancel(self, coro, after, rec):
        t = self.loop.create_task(coro)
        h = self.loop.call_later(after, lambda: (self.fired.update(["cancel"]), rec.__setitem__("cancel_t", self.now), t.cancel())
                                 if not t.done() else None)
        try:
            return await t
        except asyncio.CancelledError:
            rec["self_cancelled"] = True
            rec["cancelled_by_plan"] = "cancel_t" in rec
            raise
        finally:
            h.cancel()

    def mk_request(self, op):
        from givenergy_modbus.pdu import (ReadHoldingRegistersRequest, ReadInputRegistersRequest,
                                          WriteHoldingRegisterRequest)
        if op["op"] in ("read",):
            c = ReadHoldingRegistersRequest if op["func"] == 3 else ReadInputRegistersRequest
            return c(base_register=op["base"], register_count=op["count"], device_address=op["addr"])
        kw = {}
        if op.get("installer"):
            kw["installer"] = True
        if "addr" in op:
            kw["device_address"] = op["addr"]
        return WriteHoldingRegisterRequest(op["reg"], op["val"], **kw)

    async def _call(self, cl, op, rec):
        c = self.clients[cl]
        k = op["op"]
        if k == "connect":
            return await c.connect()
        if k == "close":
            return await c.close()
        if k in ("read", "write"):
            req = self.mk_request(op)
            kw = {"timeout": op.get("timeout", 1.0), "retries": op.get("retries", 0)}
            if "retry_delay" in op:
                kw["retry_delay"] = op["retry_delay"]
            if "warn" in op:
                kw["warn_timeout"] = op["warn"]
            r = await c.send_request_and_await_response(req, **kw)
            return self._resp(cl, r, op)
        if k in ("cmd", "inst"):
            reqs = [self.mk_request(o) for o in op["reqs"]]
            fn = c.one_shot_command if k == "cmd" else c.installer_command
            kw = {x: op[x] for x in ("timeout", "retries", "retry_delay", "dry_run") if x in op}
            return await fn(reqs, **kw)
        if k in ("refresh", "load_config"):
            kw = {x: op[x] for x in ("timeout", "retries", "retry_delay", "max_age") if x in op}
            await getattr(c, k)(**kw)
            return None
        if k == "detect":
            kw = {x: op[x] for x in ("timeout", "retries", "probe_timeout", "probe_retries") if x in op}
            if op.get("prior") is not None:
                kw["prior"] = self.mk_caps(op["prior"])
            caps = await c.detect(**kw)
            return caps_dict(caps)
        if k == "probe":
            kw = {x: op[x] for x in ("timeout", "retries") if x in op}
            return await c.probe_alive(**kw)
        if k == "capture":
            twin = self.extra.get("no_capture")
            if twin is not None:  # the same run without captures
                if rec["id"] in twin:
                    raise RuntimeError("refused")
                return await asyncio.sleep(op["duration"])
            if rec["id"] in self.extra.get("skip_capture", ()):  # the same run without the refused attempts
                raise RuntimeError("refused")
            rec["sink"] = []

            def sink(direction, data):
                rec["sink"].append((self.now, self.tick(), direction, bytes(data)))
                self.ev("sink", direction, len(data))
                if op.get("sink_raises") and len(rec["sink"]) % op["sink_raises"] == 0:
                    self.fired["sink_exception"] += 1
                    raise RuntimeError("sink failure")
            return await c.capture_frames(sink, duration=op["duration"])
        if k == "call":
            return await self.extra["calls"][op["name"]](self, cl, op, rec)
        raise ValueError(k)

    def mk_caps(self, d):
        from givenergy_modbus.model.inverter import Model
        from givenergy_modbus.model.plant import PlantCapabilities
        d = dict(d)
        d["device_type"] = Model[d["device_type"]]
        d["bcu_stacks"] = [tuple(x) for x in d["bcu_stacks"]]
        return PlantCapabilities(**d)

    def _resp(self, cl, r, op):
        out = {"cls": type(r).__name__, "addr": r.device_address, "error": bool(r.error),
               "func": getattr(r, "transparent_function_code", None)}
        if hasattr(r, "register_values"):
            out.update(base=r.base_register, count=r.register_count, values=list(r.register_values))
        else:
            out.update(reg=r.register, value=r.value)
        out["cache"] = self.peek(cl, r.device_address, "IR" if out["func"] == 4 else "HR",
                                 out.get("base", out.get("reg")), out.get("count", 1))
        return out

    def background(self, client, mine_ok=False):
        """Live tasks a finished operation of this client left running."""
        out = []
        for t in sorted(asyncio.all_tasks(self.loop), key=task_order):
            c = t.get_context()
            rec = c.get(cur_op) if c is not None else None
            if t.done() or rec is None or rec["client"] != client or rec["t1"] is None or t in self.tasks:
                continue
            out.append((t, rec))
        return out

    def plant_state(self, cl):
        """Everything received data can change, as comparable values."""
        p = self.clients[cl].plant
        return {
            "caches": {a: {(type(k).__name__, k.index): v for k, v in dict.items(c)} for a, c in p.register_caches.items()},
            "stamps": dict(p.register_block_updated_at),
            "present": dict(p.register_block_present),
            "inverter": p.inverter_serial_number, "adapter": p.data_adapter_serial_number,
            "crc": dict(p.crc_failure_count),
        }

    def peek(self, cl, addr, typ, base, count):
        from givenergy_modbus.model.register import HR, IR
        T = {"HR": HR, "IR": IR}[typ]
        c = self.clients[cl].plant.register_caches.get(addr)
        if c is None:
            return [None] * count
        return [dict.get(c, T(base + i)) for i in range(count)]

    def heal(self):
        self.healthy = True
        self.ev("heal")
        for d in self.dongles:
            d.heal()

    # -- digest -----------------------------------------------------------------
    def trace_hash(self):
        h = hashlib.blake2b(digest_size=16)
        for e in self.events:
            h.update(repr(e).encode())
        for r in self.ops:
            h.update(repr((r["id"], r["t0"], r["t1"], r["out"])).encode())
        return h.hexdigest()

    def state_hash(self):
        """Interleaving measure: the ordered kinds of events, without times and payloads."""
        h = hashlib.blake2b(digest_size=8)
        for e in self.events:
            k = e[2]
            if k != "rxseg":
                h.update(repr(e[2:5] if k in ("req", "op_end", "closed", "conn_act", "lost", "rx") and k != "tx" else e[2:4]).encode())
        return h.hexdigest()


def task_order(t):
    """Creation order (names are numbered), because a set of tasks has none."""
    n = t.get_name()
    return (len(n), n)


def caps_dict(caps):
    if caps is None:
        return None
    d = caps.model_dump()
    dt = d["device_type"]
    d["device_type"] = getattr(caps.device_type, "name", str(dt))
    d["bcu_stacks"] = [tuple(x) for x in d["bcu_stacks"]]
    return d


class _DongleProto(asyncio.Protocol):
    def __init__(self, dongle):
        self.dongle = dongle
        self.buf = bytearray()

    def connection_made(self, transport):
        self.transport = transport
        self.conn = transport.conn
        self.dongle.conns.append(self)

    def data_received(self, data):
        self.buf += data
        try:
            frames, rest = wire.split_frames(bytes(self.buf))
        except ValueError:
            self.buf.clear()
            return
        self.buf = bytearray(rest)
        for raw in frames:
            self.dongle.on_request(self, raw)

    def eof_received(self):
        return False

    def connection_lost(self, exc):
        if self in self.dongle.conns:
            self.dongle.conns.remove(self)


class Dongle:
    """The peer: one Wi-Fi/ethernet data adapter in front of an inverter's bus."""

    def __init__(self, world, idx, spec):
        self.w = world
        self.idx = idx
        self.rid = spec.get("rid", idx)  # dongles with the same one draw the same random numbers
        self.spec = spec
        self.topo = Topology(spec.get("topo", {"model": "HYBRID_GEN1", "batteries": [0x32]}), spec.get("tseed", world.seed))
        self.conns = []
        self.connects = 0
        self.down = None
        self.silent = False
        self.nreq = 0
        self.nkey = collections.Counter()
        self.absent_bank = spec.get("absent_bank", "error")
        self.lat = spec.get("lat", (0.02, 0.08))
        self.fanout = spec.get("fanout", False)
        self.gone = set(spec.get("gone", []))
        self.marker = 0
        self.apply_writes = spec.get("apply_writes", True)
        self.inflight = 0
        world.net.listen(lambda: _DongleProto(self), host_of(idx), PORT)

    def drop(self, conn):
        pass

    def heal(self):
        self.down = None
        self.silent = False
        self.lat = self.spec.get("lat", (0.02, 0.08))
        self.gone = set()
        # links that were stalled stay dead: they belong to old connections

    # -- sending -----------------------------------------------------------------
    def send(self, p, raw, tag, req=None, intact=True):
        w = self.w
        if p is None or p.transport.is_closing() or p.conn.halves[1].black:
            return None
        x = RxFrame()
        x.i, x.conn, x.d, x.t, x.raw, x.tag, x.req = len(w.rx), p.conn.id, self.idx, w.now, raw, tag, req
        x.td = x.seqd = None
        x.intact = intact
        x.f = wire.parse_frame(raw, "resp") if intact else None
        w.stream_off[p.conn.id] += len(raw)
        x.end = w.stream_off[p.conn.id]
        w.rx.append(x)
        w.by_conn_pending[p.conn.id].append(x)
        p.transport.write(raw)
        return x

    def send_all(self, raw, tag, req=None, intact=True):
        for p in list(self.conns):
            self.send(p, raw, tag, req, intact)

    # -- values ------------------------------------------------------------------
    def bank_values(self, addr, func, base, count, mark=True):
        v = self.topo.values(addr, func, base, count)
        if mark and self.spec.get("mark", True):
            w = self.w
            if addr in LV_BATT and func == wire.READ_IR and base == 60 and count == 60 and any(v):
                self.marker = self.marker % 60000 + 1
                v[57] = self.marker
            elif count > 7 and any(v) and addr not in LV_BATT:
                k = 18 - base if func == wire.READ_HR and 13 <= base + 7 <= 17 else 7  # never inside the serial number
                if k < count:
                    self.marker = self.marker % 60000 + 1
                    v[k] = self.marker
        return v

    def inv(self, addr):
        return self.topo._ser(addr if addr in self.topo.dev else 0x11)

    # -- requests ----------------------------------------------------------------
    def on_request(self, p, raw):
        w = self.w
        f = wire.parse_frame(raw, "req")
        if f is None:
            w.violate("malformed-transmission", conn=p.conn.id, detail=raw.hex())
            return
        f.raw = raw
        for x in w.tx:
            if x.recv_t is None and x.conn == p.conn.id and x.raw == raw:
                x.recv_t = w.now
                break
        if f.kind == "heartbeat":
            w.ev("hb_reply", p.conn.id)
            return
        key = ":".join(str(k) for k in f.key())
        n, self.nreq = self.nreq, self.nreq + 1
        nk = self.nkey[key]
        self.nkey[key] += 1
        r = {"i": len(w.reqs), "t": w.now, "seq": w.tick(), "conn": p.conn.id, "d": self.idx, "f": f, "key": key, "n": n, "nk": nk,
             "acts": []}
        w.reqs.append(r)
        w.ev("req", p.conn.id, key)
        acts = []
        if not w.healthy:
            for fl in w.faults:
                if fl.get("d", 0) != self.idx or ("req" not in fl and "key" not in fl):
                    continue
                if "req" in fl and fl["req"] != n:
                    continue
                if "key" in fl and (fl["key"] != key or fl.get("nth", 0) != nk) and not (fl.get("nth") == "*" and fl["key"] == key):
                    continue
                acts.append(fl)
        self.answer(p, f, r, acts)

    def base_answer(self, f, reject=False):
        """(kind, bytes) of the honest answer, or None for silence. A request the device rejects changes nothing."""
        tp = self.topo
        ad = tp.adapter
        if f.addr in self.gone or self.silent:
            return None
        if f.kind == "write":
            if f.addr not in tp.dev:
                return None
            if self.apply_writes and not reject:
                tp.set(f.addr, "HR", f.base, f.value)
                self.w.applied.append((self.w.tick(), self.w.now, f.addr, f.base, f.value))
            return wire.write_response(ad, self.inv(f.addr), f.addr, f.base, f.value)
        if f.kind != "read":
            return None
        has = tp.has(f.addr, f.func, f.base, f.count)
        if has is None:
            return None
        if not has:
            if self.absent_bank == "silent":
                return None
            return wire.error_response(ad, self.inv(f.addr), f.addr, f.func, f.base, f.count)
        return wire.read_response(ad, self.inv(f.addr), f.addr, f.func, f.base, self.bank_values(f.addr, f.func, f.base, f.count))

    def answer(self, p, f, r, acts):
        w = self.w
        lo, hi = self.lat
        lat = lo + (hi - lo) * u(w.seed, "ans", self.rid, r["key"], r["nk"])
        ad = self.topo.adapter
        rnd = keyed(w.seed, "act", self.rid, r["key"], r["nk"])
        copies = 1
        tag = "answer"
        raw = None
        names = [a["act"] for a in acts]
        r["acts"] = names
        for nm in names:
            w.fired[nm] += 1
        if "drop" in names:
            raw = None
        else:
            raw = self.base_answer(f, "err" in names)
        intact = True
        pre, post = [], []
        for a in acts:
            nm = a["act"]
            if nm == "late":
                lat += a.get("s", 1.0)
            elif nm == "dup":
                copies += a.get("n", 1)
            elif nm == "err" and f.kind in ("read", "write"):
                raw = wire.error_response(ad, self.inv(f.addr), f.addr, f.func, f.base, f.count if f.kind == "read" else f.value)
                tag = "error"
            elif nm == "null":
                raw, tag = wire.null_response(ad, self.inv(0x11), f.addr), "null"
            elif nm == "crc" and raw is not None and f.kind == "read":
                b = bytearray(raw)
                b[-1 - rnd.randrange(2)] ^= 1 << rnd.randrange(8)
                raw, tag = bytes(b), "badcrc"
            elif nm == "crc0" and raw is not None and f.kind == "read":
                b = raw[:-2] + b"\0\0"
                if b != raw:
                    raw, tag = b, "badcrc"
            elif nm == "flip" and raw is not None and f.kind == "read":
                b = bytearray(raw)
                lo_ = 42  # first value byte
                if len(b) > lo_ + 3:
                    b[rnd.randrange(lo_, len(b) - 2)] ^= 1 << rnd.randrange(8)
                    raw, tag = bytes(b), "badcrc"
            elif nm == "flipenv" and raw is not None and f.kind == "read":
                # corrupt inside the checksummed envelope (device serial)
                b = bytearray(raw)
                b[28 + rnd.randrange(10)] ^= 1 << rnd.randrange(6)
                raw, tag = bytes(b), "badcrc"
            elif nm == "trunc" and raw is not None:
                raw = raw[:max(1, min(len(raw) - 1, int(len(raw) * a.get("frac", 0.5))))]
                tag, intact = "trunc", False
            elif nm == "zero" and raw is not None and f.kind == "read":
                raw, tag = wire.read_response(ad, self.inv(f.addr), f.addr, f.func, f.base, [0] * f.count), "zero"
            elif nm == "susp" and raw is not None and f.kind == "read" and f.func == wire.READ_IR and f.count == 60 and f.base % 60 == 0 and self.topo.has(f.addr, f.func, f.base, f.count):
                v = self.bank_values(f.addr, f.func, f.base, f.count)
                for k, x in SUSPICIOUS.items():
                    v[k] = x
                raw, tag = wire.read_response(ad, self.inv(f.addr), f.addr, f.func, f.base, v), "susp"
            elif nm in ("clamp", "reg0") and raw is not None and f.kind == "write":
                # the device settles on another value, or its acknowledgement names no register
                val = f.value // 2 if nm == "clamp" else f.value
                if nm == "clamp" and self.apply_writes:
                    self.topo.set(f.addr, "HR", f.base, val)
                raw = wire.write_response(ad, self.inv(f.addr), f.addr, f.base if nm == "clamp" else 0, val)
            elif nm == "prebad" and f.kind == "read" and self.topo.has(f.addr, f.func, f.base, f.count):
                from .feed import spoil
                bad = spoil(None, a.get("wrap", "crc"), rnd, ad, self.inv(f.addr), f.addr, f.func, f.base, f.count,
                            self.bank_values(f.addr, f.func, f.base, f.count))
                w.loop.net_in(lat * a.get("lead", 0.5), self.send, p, bad, a.get("wrap", "crc"), r["i"])
            elif nm == "unsol":
                pre.append((self.unsolicited(rnd, a), "unsolicited", True))
            elif nm == "shape" and f.kind == "read":
                pre.append((self.misshaped(rnd, f), "misshaped", True))
            elif nm == "hb":
                for _ in range(a.get("n", 1)):
                    pre.append((wire.heartbeat(ad, a.get("type", 1 + rnd.randrange(4))), "heartbeat", True))
            elif nm == "lan":
                pre.append((wire.lan_broadcast(ad), "lan", True))
            elif nm == "garbage":
                g = bytes(rnd.randrange(256) for _ in range(a.get("n", 20))).replace(b"\x59", b"\x58")
                pre.append((g, "garbage", False))
            elif nm == "push":
                pre.append((bytes.fromhex(a["raw"]), a.get("tag", "push"), True))
            elif nm in ("eof", "rst", "stall", "etimedout", "partial_eof"):
                post.append(a)

        if "dropconn" in names:
            raw = None

        def go(first=True):
            for q, t, ok in pre if first else ():
                if q is not None:
                    (self.send_all if self.fanout else lambda *z: self.send(p, *z))(q, t, None, ok)
            cut = next((a for a in post if a["act"] == "partial_eof"), None)
            if raw is not None:
                b, ok = raw, intact
                if cut is not None:
                    b, ok = raw[:max(1, min(len(raw) - 1, int(len(raw) * cut.get("frac", 0.5))))], False
                if self.fanout and ok:
                    for q in list(self.conns):
                        self.send(q, b, tag if q is p else "fanout", r["i"] if q is p else None, ok)
                else:
                    self.send(p, b, tag, r["i"], ok)
            for a in post:
                self.conn_act(p, a)
        # connection-level acts before the answer
        for a in [x for x in post if x.get("when") == "before"]:
            post.remove(a)
            self.conn_act(p, a)
        w.loop.net_in(lat, go)
        for k in range(1, copies):
            w.loop.net_in(lat + 0.05 * k + 0.3 * u(w.seed, "dup", r["key"], r["nk"], k), go, False)

    def unsolicited(self, rnd, a):
        tp = self.topo
        if "addr" in a:
            addr, func, base, count = a["addr"], a["func"], a["base"], a["count"]
        else:
            choices = [(ad, fn, b, n) for ad, d in sorted(tp.dev.items()) if ad not in self.gone for fn, m in ((3, d["HR"]), (4, d["IR"]))
                       for b, n in ((0, 60), (60, 60), (60, 30), (120, 60), (180, 60))
                       if all(x in m for x in range(b, b + n))]
            addr, func, base, count = rnd.choice(choices)
        return wire.read_response(tp.adapter, self.inv(addr), addr, func, base, self.bank_values(addr, func, base, count))

    def misshaped(self, rnd, f):
        """An intact answer close to, but not matching, the request."""
        tp = self.topo
        how = rnd.choice(("addr", "base", "count", "func"))
        addr, func, base, count = f.addr, f.func, f.base, f.count
        if how == "addr":
            addr = (addr ^ 0x40) & 0xFF
        elif how == "base":
            base = (base + rnd.choice((1, 60))) & 0xFFFF
        elif how == "count":
            count = max(1, count - 1 - rnd.randrange(5)) if count > 1 else 2
        else:
            func = 7 - func if func in (3, 4) else 3
        vals = [rnd.randrange(1, 3000) for _ in range(count)]
        return wire.read_response(tp.adapter, self.inv(f.addr), addr, func, base, vals)

    # -- connection faults ---------------------------------------------------------
    def conn_act(self, p, a):
        nm = a["act"]
        c = p.conn
        w = self.w

        def do():
            w.ev("conn_act", c.id, nm)
            if nm in ("eof", "partial_eof"):
                p.transport.close()
            elif nm == "rst":
                p.transport.abort()
            elif nm == "etimedout":
                no = a.get("errno", 110)
                c.kill_local(0, OSError(no, os.strerror(no)))
            elif nm == "stall":
                c.stall(0)
                c.stall(1)
                if a.get("for"):
                    w.loop.net_in(a["for"], lambda: (c.unstall(0), c.unstall(1)))
            elif nm == "stall_rx":  # the peer stops reading (zero window)
                c.stall(0)
                if a.get("for"):
                    w.loop.net_in(a["for"], lambda: c.unstall(0))
        if a.get("delay"):
            w.loop.net_in(a["delay"], do)
        else:
            do()

    def on_all(self, f):
        """A timed event on every open connection of this dongle."""
        nm = f["act"]
        w = self.w
        if nm in ("raw", "push"):
            raw = bytes.fromhex(f["raw"])
            for addr, typ, reg, val in f.get("set", ()):
                self.topo.set(addr, typ, reg, val)
            self.send_all(raw, f.get("tag", "push"), None, f.get("intact", True))
        elif nm == "hb":
            for _ in range(f.get("n", 1)):
                self.send_all(wire.heartbeat(self.topo.adapter, f.get("type", 1)), "heartbeat")
        elif nm == "unsol":
            self.send_all(self.unsolicited(keyed(w.seed, "unsol", f["at"]), f), "unsolicited")
        elif nm == "lan":
            self.send_all(wire.lan_broadcast(self.topo.adapter), "lan")
        elif nm == "gone":
            self.gone.add(f["addr"])
        elif nm == "back":
            self.gone.discard(f["addr"])
        else:
            for p in list(self.conns):
                self.conn_act(p, f)
