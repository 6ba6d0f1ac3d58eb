"""However often the same use of a client repeats, what it keeps does not grow."""
import asyncio
import collections
import functools
import gc
import sys
import types

from ..gen import client_cfg, keys_for, net_cfg, read_op, write_op, WRITE_REGS
from ..topo import TOPO_POOL
from ..world import World, cur_client

RUNS = {"quick": 350, "thorough": 5000}
CYCLES = 7
MORE = 16  # repetitions when a count grew in every one so far, so that a chance rise is told from a leak
WARM = 3  # cycles after which everything the workload can make the client remember is remembered
RULE = ("a run repeats one script with the same faults seven times, or sixteen when a count rose each time; after each repetition, once the link is idle, everything reachable from the client and from "
        "the package's modules is counted, and no count may rise after each but the first few repetitions; it counts when all repetitions were measured")
SKIP = (type, types.ModuleType, types.FunctionType, types.BuiltinFunctionType, types.CodeType, types.FrameType, types.TracebackType, types.MethodDescriptorType,
        types.GetSetDescriptorType, types.MemberDescriptorType, types.WrapperDescriptorType)


def gen(r, i, tier):
    topo = r.choice(TOPO_POOL)
    lo = r.choice((0.001, 0.02))
    cfg = {"client": {**client_cfg(r), "tx_message_wait": r.choice((0.0, 0.02)), "tx_jitter": 0.0}, **net_cfg(r)}
    span = r.choice((8.0, 20.0))
    keys = keys_for(topo)
    lanes = []
    for n in range(r.choice((1, 2, 3))):
        ops = []
        for _ in range(r.randrange(1, 6)):
            x = r.random()
            if x < 0.3:
                op = read_op(r.choice(keys + [(0x60, 4, 0, 60)]), r.choice((0.2, 0.5)), r.randrange(2))
            elif x < 0.42:
                op = write_op(r.choice(WRITE_REGS), r.randrange(100), 0.4, r.randrange(2))
            elif x < 0.58:
                op = {"op": r.choice(("refresh", "load_config")), "timeout": 0.4, "retries": r.randrange(2), "retry_delay": 0.1}
            elif x < 0.65:
                op = {"op": "detect", "timeout": 0.4, "retries": 0, "probe_timeout": 0.1, "probe_retries": 0}
            elif x < 0.72:
                op = {"op": "probe", "timeout": 0.3, "retries": 0}
            elif x < 0.8:
                op = {"op": "capture", "duration": round(r.uniform(0.2, 3), 2), **({"sink_raises": 2} if r.random() < 0.3 else {})}
            elif x < 0.85:
                op = {"op": "cmd", "reqs": [write_op(r.choice(WRITE_REGS), 1)], "timeout": 0.4, "retries": 0}
            elif x < 0.9:
                op = {"op": "close"}
            elif x < 0.95:
                op = {"op": "connect"}
            else:
                op = {"op": "call", "name": "views"}
            if op["op"] in ("close", "connect") and n:  # two connect() at once is no supported use: one lane decides
                op = {"op": "sleep", "t": 0.3}
            if r.random() < 0.2 and op["op"] not in ("close", "connect", "call"):
                op["cancel_after"] = round(r.random() * 0.6, 3)
            ops += [op, {"op": "sleep", "t": round(r.random() * 0.5, 3)}]
        lanes.append(ops)
    vary = r.random() < 0.5  # whether what arrives differs from one repetition to the next, as live readings do
    faults = []
    for _ in range(r.choice((0, 1, 3, 6))):  # within each repetition
        act = r.choice(("eof", "rst", "etimedout", "hb", "garbage", "feed", "feed", "feed", "crc", "silent", "stall"))
        faults.append({"act": act, "t": round(r.uniform(0.05, span * 0.8), 3), "k": r.randrange(100)})
    if r.random() < 0.6:
        lanes[0].insert(0, {"op": "detect", "timeout": 0.4, "retries": 1, "probe_timeout": 0.1, "probe_retries": 0})
    used = [(o["addr"], o["func"], o["base"], o["count"]) for ops in lanes for o in ops if o["op"] == "read"] + [(0x11, 3, 0, 60), (0x11, 4, 0, 60), (0x11, 4, 180, 60)]
    for _ in range(r.choice((0, 1, 2, 3))):
        k = r.choice(used)
        faults.append({"key": f"{k[0]}:{k[1]}:{k[2]}:{k[3]}", "nth": "*", "act": r.choice(("drop", "err", "crc", "zero", "trunc", "dup", "null", "late")), "s": 0.9, "frac": 0.4, "n": 2})
    return {"cfg": cfg, "dongles": [{"topo": topo, "tseed": r.randrange(1 << 30), "mark": vary, "lat": [lo, lo * 2], "absent_bank": r.choice(("error", "silent"))}],
            "lanes": lanes, "span": span, "vary": vary, "cycle": faults, "reconnect": r.choice(("never", "each", "lost", "lost")), "actors": [{"ops": [{"op": "call", "name": "cycles"}]}],
            "horizon": 4000, "fixed": True}


def build(plan):
    from .. import feed, wire
    from ..topo import Topology
    plan = dict(plan)
    topo = Topology(plan["dongles"][0]["topo"], plan["dongles"][0]["tseed"])
    plan["faults"] = [f for f in plan["cycle"] if "key" in f]
    w = World(plan)
    per = plan["span"] + 60  # a minute of idleness after each repetition

    def bytes_of(f, n):
        k = f["k"] + (n * 1009 if plan.get("vary") else 0)
        if f["act"] == "hb":
            return wire.heartbeat(topo.adapter, 1 + k % 3)
        if f["act"] == "garbage":
            return bytes((k * 7 + j * 13) % 89 for j in range(f["k"] * 4 + 1))
        a, fn, b, m = (0x11, 4, 0, 60) if f["k"] % 3 else (0x32, 4, 60, 60)
        raw = wire.read_response(topo.adapter, topo._ser(a), a, fn, b, topo.values(a, fn, b, m) if topo.has(a, fn, b, m) and not plan.get("vary") else [k % 5000] * m)
        return raw[:-1] + bytes((raw[-1] ^ 1,)) if f["act"] == "crc" else raw

    async def views(w, cl, op, rec):
        p = w.clients[cl].plant
        repr([x.identity for x in p.devices])

    async def cycles(w, cl, op, rec):
        c = w.clients[cl]
        me = cur_client.get()
        w.extra["counts"] = []
        for n in range(MORE):
            if n >= CYCLES and not grew(w.extra["counts"]):
                break
            t0 = w.now
            for f in plan["cycle"]:
                if "t" not in f:
                    continue
                ev = {"act": f["act"], "errno": 110}
                if f["act"] in ("hb", "garbage", "feed", "crc"):
                    ev = {"act": "raw", "raw": bytes_of(f, n).hex(), "intact": False}
                w.loop.net_in(f["t"], w._timed, ev)
                if f["act"] == "silent":
                    w.loop.net_in(f["t"] + 1.5, w._timed, {"act": "talk"})
            if plan["reconnect"] == "each":
                await c.close()
            if not c.connected or (plan["reconnect"] == "never" and n == 0):
                try:
                    await c.connect()
                except Exception:  # noqa: BLE001
                    pass

            async def lane(k, ops):
                for o in ops:
                    await w._op(0, me, o)
            ts = [w.loop.create_task(lane(k, ops), name=f"lane{n}-{k}") for k, ops in enumerate(plan["lanes"])]
            if ts:
                await asyncio.wait(ts, timeout=plan["span"] * 6)
            for t in ts:
                t.cancel()
            if ts:
                await asyncio.wait(ts)
            for t in ts:
                if not t.cancelled() and t.exception() is not None:
                    raise t.exception()
            await asyncio.sleep(max(0, t0 + per - w.now))
            for x in w.ops:  # what the harness itself keeps of the package
                x.pop("exc", None)
                x["val"] = None
            del ts
            w.extra["counts"].append(measure(w, cl))
    w.extra["calls"] = {"cycles": cycles, "views": views}
    return w


def _count(roots):
    seen, todo, kinds = {id(o) for o in roots}, list(roots), {}
    while todo:
        o = todo.pop()
        t = type(o)
        kinds[t.__qualname__] = kinds.get(t.__qualname__, 0) + 1
        if t in (bytes, bytearray, str):
            kinds["bytes kept"] = kinds.get("bytes kept", 0) + len(o)
        if isinstance(o, (list, dict, set, frozenset, collections.deque)):
            kinds["items held"] = kinds.get("items held", 0) + len(o)
        for x in gc.get_referents(o):
            if id(x) in seen or isinstance(x, SKIP) or isinstance(x, (int, float, complex, bool)) or x is None or type(x).__module__.startswith(("dst.", "logging", "_contextvars")) \
                    or isinstance(x, asyncio.AbstractEventLoop):
                continue
            seen.add(id(x))
            todo.append(x)
    return kinds


def measure(w, cl):
    """Counts of what is kept: objects reachable from the client, containers reachable from the package's modules and classes, tasks, open connections."""
    gc.collect()
    kinds = _count([w.clients[cl]])
    roots = []
    for name, mod in sorted(sys.modules.items()):
        if not name.startswith("givenergy_modbus"):
            continue
        for x in list(vars(mod).values()):
            if isinstance(x, type) and x.__module__.startswith("givenergy_modbus"):
                roots += [y for k, y in vars(x).items() if isinstance(y, (list, dict, set, collections.deque, collections.OrderedDict)) and not k.startswith("__")]
            elif isinstance(x, functools._lru_cache_wrapper) and x.cache_parameters()["maxsize"] is not None:
                continue  # bounded by its own size
            elif isinstance(x, (list, dict, set, collections.deque, functools._lru_cache_wrapper)) and x is not vars(mod):
                roots.append(x)
    roots = list({id(x): x for x in roots}.values())
    shared = _count(roots)
    nbytes = kinds.pop("bytes kept", 0)
    shared.pop("bytes kept", 0)
    return {"reachable": sum(kinds.values()), "kinds": kinds, "bytes": nbytes, "shared": sum(shared.values()), "types": shared,
            "tasks": sum(1 for t in asyncio.all_tasks(w.loop) if not t.done()),
            "links": sum(1 for i in w.conn_info.values() if i["closed"][0] is None)}


def grew(m):
    """The counts that rose with every repetition since all a repetition can make the client remember was remembered."""
    out = []
    for k in ("reachable", "shared", "tasks", "links", "bytes"):
        n = [x[k] for x in m[WARM - 1:]]
        if len(n) > 1 and all(a < b for a, b in zip(n, n[1:])) and (k != "bytes" or n[-1] - n[0] > 1024):  # a part of a frame and the last piece read may differ in size
            out.append(k)
    return out


def check(w):
    v = list(w.violations)
    m = w.extra.get("counts", [])
    if len(m) < MORE:
        return v
    for k in grew(m):
        d = {"reachable": "kinds", "shared": "types"}.get(k)
        rise = {t: [x[d].get(t, 0) for x in m] for t in m[-1][d] if m[-1][d][t] > m[WARM - 1][d].get(t, 0)} if d else {}
        v.append({"what": "what the client keeps grows with every repetition", "count": k, "after each": [x[k] for x in m], "grew": dict(sorted(rise.items())[:12])})
    return v


def nontrivial(w):
    return len(w.extra.get("counts", ())) >= CYCLES


def probes(w):
    m = w.extra.get("counts", [])
    return {"repetitions": len(m), "objects reachable": m[-1]["reachable"] if m else 0, "operations": len(w.ops), "reconnects": max(0, len(w.conn_info) - 1)}
