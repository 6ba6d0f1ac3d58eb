"""The legacy wrappers (refresh_plant, watch_plant, execute) do what the primitives they are made of do, and nothing else."""
import asyncio
import copy
import warnings

from ..gen import client_cfg, conn_fault, keys_for, net_cfg, read_op, req_faults, write_op, WRITE_REGS
from ..topo import TOPO_POOL, Topology
from ..world import World, caps_dict

RUNS = {"quick": 1500, "thorough": 9000}
RULE = ("a run executes one script on two clients at two identical simulated sites that meet the same faults at the same moments: one client calls the wrapper, "
        "the other the documented composition of primitives; it counts when a wrapper call ended")
REQ = ("drop", "drop", "late", "err", "null", "crc", "zero", "trunc", "dup", "garbage", "hb", "eof", "rst")


def _req(r, topo):
    if r.random() < 0.2:
        return write_op(r.choice(WRITE_REGS), r.randrange(100))
    return read_op(r.choice(keys_for(topo)))


def _wrap(r, topo):
    x = r.random()
    kw = {}
    if r.random() < 0.6:
        kw["timeout"] = r.choice((0.3, 0.6, 1.0))
    if r.random() < 0.6:
        kw["retries"] = r.choice((0, 0, 1, 2))
    if r.random() < 0.5:
        kw["retry_delay"] = r.choice((0, 0.1, 1.3))
    if x < 0.45:
        if r.random() < 0.7:
            kw["full_refresh"] = r.random() < 0.5
        if r.random() < 0.2:
            kw["max_batteries"] = r.choice((0, 1, 5, 6))
        return {"op": "call", "name": "refresh_plant", "kw": kw}
    if x < 0.75:
        if r.random() < 0.8:
            kw["refresh_period"] = r.choice((0, 0.7, 2.0, 5))
        if r.random() < 0.4:
            kw["passive"] = r.random() < 0.5
        if r.random() < 0.2:
            kw["max_batteries"] = r.choice((0, 1, 5, 6))
        op = {"op": "call", "name": "watch_plant", "kw": kw, "handler": r.random() < 0.85}
        if kw.get("refresh_period") == 0 and kw.get("passive"):
            kw["refresh_period"] = 0.3
        if op["handler"] and r.random() < 0.4:
            op["raises"] = r.randrange(1, 4)
        op["cancel_after"] = round((r.choice((2, 15, 40)) if kw.get("refresh_period") != 0 else 0.7) * (0.1 + r.random()), 3)
        return op
    kw.setdefault("timeout", 0.5)
    kw.setdefault("retries", 0)
    if r.random() < 0.7:
        kw["return_exceptions"] = r.random() < 0.6
    op = {"op": "call", "name": "execute", "kw": kw, "reqs": [_req(r, topo) for _ in range(r.choice((0, 1, 2, 4, 8, 24)))]}
    if r.random() < 0.15:
        op["cancel_after"] = round(r.random() * 2, 3)
    return op


def gen(r, i, tier):
    topo = r.choice(TOPO_POOL)
    cfg = {"client": {**client_cfg(r), "tx_jitter": 0.0, "tx_message_wait": r.choice((0.0, 0.02, 0.1))}, **net_cfg(r)}
    lo = r.choice((0.001, 0.02))
    dongle = {"topo": topo, "tseed": r.randrange(1 << 30), "rid": 0, "lat": [lo, lo * r.choice((1.01, 4))], "absent_bank": r.choice(("error", "silent"))}
    faults = []
    if r.random() < 0.7:
        off = r.choice((0, 0, 10, 30))
        faults += [{**f, "req": f["req"] + off} for f in req_faults(r, r.choice((6, 40, 120)), REQ, r.choice((0.03, 0.15, 0.5)))]
    if r.random() < 0.35:
        faults.append(conn_fault(r, r.uniform(0.1, 25)))
    if r.random() < 0.15:
        faults.append({"connect": r.randrange(3), "act": r.choice(("refuse", "hang", "slow")), "delay": 0.4})
    if r.random() < 0.15:
        t = r.uniform(0.5, 15)
        faults += [{"at": round(t, 3), "act": "silent"}, {"at": round(t + r.choice((1, 6)), 3), "act": "talk"}]
    if r.random() < 0.1:
        faults.append({"at": round(r.uniform(1, 15), 3), "act": "jump", "s": r.choice((3.0, 600.0))})
    ops = []
    if r.random() < 0.85:
        ops.append({"op": "connect"})
    for _ in range(r.randrange(1, 4)):
        if r.random() < 0.35:
            ops.append({"op": "call", "name": "caps", "to": r.choice(("preset", "preset", "none"))})
        if r.random() < 0.15:
            ops.append({"op": "connect"})
        ops.append(_wrap(r, topo))
        if r.random() < 0.3:
            ops.append({"op": "sleep", "t": round(r.random() * 3, 3)})
    actors = [{"ops": ops}]
    for _ in range(r.choice((0, 0, 1, 2))):
        side = [{"op": "sleep", "t": round(r.random() * 6, 3)}]
        for _ in range(r.randrange(1, 4)):
            x = r.random()
            side.append({"op": "close"} if x < 0.2 else {"op": "connect"} if x < 0.3 else {"op": "call", "name": "caps", "to": r.choice(("none", "preset"))} if x < 0.4
                        else {**_req(r, topo), "timeout": 0.4} if x < 0.8 else _wrap(r, topo))
            side.append({"op": "sleep", "t": round(r.random() * 5, 3)})
        actors.append({"ops": side})
    return {"cfg": cfg, "clients": [{"d": 0}], "dongles": [dongle], "actors": actors, "faults": faults, "horizon": 400, "settle": 30}


async def _refresh(c, full, kw):
    """What refresh_plant is documented to be."""
    t = {"timeout": kw.get("timeout", 2.0), "retries": kw.get("retries", 1)}
    if c.plant.capabilities is None:
        c.plant.capabilities = await c.detect(**t)
    t["retry_delay"] = kw.get("retry_delay", 0.5)
    if full:
        await c.load_config(**t)
    await c.refresh(**t)


async def refresh_plant(w, cl, op, rec):
    c, kw = w.clients[cl], op["kw"]
    if cl == 0:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            got = await c.refresh_plant(**kw)
        if got is not c.plant:
            w.violate("refresh_plant returned something other than the client's plant", op=op)
    else:
        await _refresh(c, kw.get("full_refresh", True), kw)
    return caps_dict(c.plant.capabilities)


async def watch_plant(w, cl, op, rec):
    c, kw = w.clients[cl], op["kw"]
    calls = rec["handler"] = []

    def handler():
        calls.append((round(w.now, 9), repr(sorted(w.plant_state(cl)["stamps"].items(), key=repr))))
        w.ev("handler", cl)
        if len(calls) == op.get("raises"):
            raise LookupError("the consumer's own failure")
    if cl == 0:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            await c.watch_plant(**kw, **({"handler": handler} if op["handler"] else {}))
        w.violate("watch_plant returned", op=op)
        return
    await c.connect()
    await _refresh(c, True, kw)
    while True:
        if op["handler"]:
            handler()
        await asyncio.sleep(kw.get("refresh_period", 15.0))
        if not kw.get("passive", False):
            await _refresh(c, False, kw)


async def execute(w, cl, op, rec):
    c, kw = w.clients[cl], op["kw"]
    reqs = [w.mk_request(o) for o in op["reqs"]]
    if cl == 0:
        out = await c.execute(reqs, **kw)
    else:
        one = {k: v for k, v in kw.items() if k != "return_exceptions"}
        order = []
        tasks = [asyncio.ensure_future(c.send_request_and_await_response(m, **one)) for m in reqs]
        fail = asyncio.get_running_loop().create_future()

        def done(t):
            order.append(t)
            if not fail.done() and ((not kw.get("return_exceptions") and (t.cancelled() or t.exception())) or len(order) == len(tasks)):
                fail.set_result(t)
        for t in tasks:
            t.add_done_callback(done)
        try:
            if tasks:
                await fail
        except asyncio.CancelledError:
            for t in tasks:
                t.cancel()
            await asyncio.wait(tasks)
            raise
        if not kw.get("return_exceptions"):
            for t in order:
                t.result()  # raises the first failure
        out = [(asyncio.CancelledError() if t.cancelled() else t.exception() or t.result()) for t in tasks]
    if not isinstance(out, list) or len(out) != len(reqs):
        w.violate("execute returned another number of results than there were requests", op=op)
        return None
    rec["answers"] = sum(not isinstance(x, BaseException) for x in out)
    return [_show(x) for x in out]


def _show(x):
    if isinstance(x, BaseException):
        return (type(x).__name__, str(x).replace("10.1.0.2", "10.1.0.1"))
    return (type(x).__name__, x.device_address, getattr(x, "base_register", getattr(x, "register", None)), tuple(getattr(x, "register_values", ())) or getattr(x, "value", None))


async def caps(w, cl, op, rec):
    spec = w.plan["dongles"][0]
    w.clients[cl].plant.capabilities = w.mk_caps(Topology(spec["topo"], spec["tseed"]).expected_caps()) if op["to"] == "preset" else None


async def final(w):
    w.extra["end"] = [_state(w, cl) for cl in (0, 1)]


def _state(w, cl):
    c = w.clients[cl]
    return {**w.plant_state(cl), "caps": caps_dict(c.plant.capabilities), "connected": c.connected,
            "left": sorted(t.get_coro().__qualname__ for t, _ in w.background(cl))}


def build(plan):
    plan = copy.deepcopy(plan)
    plan["clients"] = [{**plan["clients"][0], "d": k} for k in (0, 1)]
    plan["dongles"] = [plan["dongles"][0], plan["dongles"][0]]
    plan["actors"] = [{**a, "client": k} for k in (0, 1) for a in plan["actors"]]
    plan["faults"] = [f if f.get("act") == "jump" else {**f, "d": k} for f in plan["faults"] for k in ((0,) if f.get("act") == "jump" else (0, 1))]
    w = World(plan)
    w.extra["calls"] = {"refresh_plant": refresh_plant, "watch_plant": watch_plant, "execute": execute, "caps": caps}
    w.extra["final"] = final
    return w


def _out(x):
    e = x.get("exc")
    return (x["out"], str(e).replace("10.1.0.2", "10.1.0.1") if e is not None else None, [_show(f) if isinstance(f, BaseException) else repr(f) for f in getattr(e, "failures", ())])


def check(w):
    v = list(w.violations)
    if "end" not in w.extra:
        return v
    n = len(w.plan["actors"]) // 2
    a, b = ({}, {})
    for x in w.ops:
        (a if x["client"] == 0 else b).setdefault(x["actor"] % n, []).append(x)
    first = None
    for k in sorted(a.keys() | b.keys()):
        xs, ys = a.get(k, []), b.get(k, [])
        for x, y in zip(xs, ys):
            if x["out"] in (None, "HUNG") or y["out"] in (None, "HUNG"):
                one, two = x["out"], y["out"]
            else:
                one, two = (_out(x), x["val"], x.get("handler"), round(x["t1"], 6)), (_out(y), y["val"], y.get("handler"), round(y["t1"], 6))
            if one != two:
                names = ("outcome", "result", "handler calls", "end") if isinstance(one, tuple) else ("completion",)
                d = next((j for j, (p, q) in enumerate(zip(one, two)) if p != q), 0) if isinstance(one, tuple) else 0
                p, q = (one[d], two[d]) if isinstance(one, tuple) else (one, two)
                first = min(first or (1e9,), (x["t0"], k, x["op"].get("name", x["op"]["op"]), names[d], repr(p)[:300], repr(q)[:300]))
                break
    ra, rb = ([(round(q["t"], 6), q["f"].raw.hex()) for q in w.reqs if q["d"] == d] for d in (0, 1))
    if ra != rb:
        k = next((j for j, (p, q) in enumerate(zip(ra, rb)) if p != q), min(len(ra), len(rb)))
        v.append({"what": "the wrapper sent other requests than the primitives it stands for", "nth": k, "wrapper": ra[k] if k < len(ra) else None,
                  "primitives": rb[k] if k < len(rb) else None})
    if first:
        v.append({"what": "the wrapper ended otherwise than the primitives it stands for", "t": first[0], "op": first[2], "differs": first[3], "wrapper": first[4], "primitives": first[5]})
    s, z = w.extra["end"]
    for k in s:
        if s[k] != z[k]:
            v.append({"what": "the wrapper left another state than the primitives it stands for", "part": k, "wrapper": repr(s[k])[:300], "primitives": repr(z[k])[:300]})
    return v


def _ended(w):
    return [x for x in w.ops if x["client"] == 0 and x["op"].get("name") in ("refresh_plant", "watch_plant", "execute") and x["out"] not in (None, "HUNG")]


def nontrivial(w):
    return bool(_ended(w))


def probes(w):
    out = {}
    for x in _ended(w):
        k = f"{x['op']['name']}: {x['out']}"
        out[k] = out.get(k, 0) + 1
    out["handler calls"] = sum(len(x.get("handler", ())) for x in _ended(w))
    out["answers to execute"] = sum(x.get("answers", 0) for x in _ended(w))
    return out
