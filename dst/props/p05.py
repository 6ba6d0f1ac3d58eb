"""Close leaves nothing behind."""
import asyncio
import gc

from ..gen import (ERRNOS, WRITE_REGS, bound, client_cfg, conn_fault, net_cfg, read_op, req_conn_fault, req_faults, uniq_keys)
from ..topo import TOPO_POOL
from ..world import World

RUNS = {"quick": 2400, "thorough": 30000}
RULE = "a run counts when a close ran while a call was in flight or traffic was arriving; runs are the same when their ordered event kinds coincide"


def gen(r, i, tier):
    topo = r.choice(TOPO_POOL)
    cfg = {"client": client_cfg(r), **net_cfg(r), "kernel_cap": r.choice((65536, 65536, 200, 40)), "hiwater": r.choice((65536, 65536, 60, 0))}
    keys = uniq_keys(r)

    def rd(**kw):
        return read_op(next(keys), r.choice((0.3, 1.0)), r.randrange(0, 2), retry_delay=r.choice((0, 0.2, 0.5)), **kw)
    main = []
    actors = [{"ops": main}]
    faults = []
    if r.random() < 0.15:
        main.append({"op": "close"})
    t = 0.0
    for cyc in range(r.choice((1, 1, 2, 3))):
        main.append({"op": "connect"})
        if r.random() < 0.2:
            main.append({"op": "detect", "timeout": 0.5, "retries": 0, "probe_timeout": 0.2, "probe_retries": 0})
        d = r.choice((0.02, 0.3, 1.0, 3.0, 6.0)) * (0.1 + 0.9 * r.random())
        main.append({"op": "sleep", "t": round(d, 4)})
        main.append({"op": "call", "name": "close", "times": r.choice((1, 1, 2, 3))})
        # others work during this cycle
        for _ in range(r.choice((1, 2, 3, 8, 24))):
            ops = []
            for _ in range(r.randrange(1, 4)):
                if r.random() < 0.5:
                    ops.append({"op": "sleep", "t": round(r.random() * (d + 0.1), 4)})
                x = r.random()
                if x < 0.7:
                    ops.append(rd())
                elif x < 0.8:
                    ops.append({"op": "cmd", "reqs": [{"op": "write", "reg": g, "val": r.randrange(1, 60000)} for g in r.sample(WRITE_REGS, 3)],
                                "timeout": 0.5, "retries": r.randrange(0, 2), "retry_delay": r.choice((0, 0.3))})
                elif x < 0.9:
                    ops.append({"op": r.choice(("refresh", "load_config")), "timeout": 0.5, "retries": r.randrange(0, 2)})
                elif x < 0.95:
                    ops.append({"op": "capture", "duration": round(r.random() * 2, 3)})
                else:
                    ops.append({"op": "close"})
                if r.random() < 0.1:
                    ops[-1]["cancel_after"] = round(r.random() * 1, 4)
            actors.append({"start": round(t + 0.02 + r.choice((0.0, 0.2, 1.0)) * r.random() * d, 4), "ops": ops})
        for _ in range(r.randrange(0, 3)):
            faults.append(conn_fault(r, t + r.random() * (d + 0.1), ("eof", "rst", "etimedout", "stall", "stall_rx")))
        for _ in range(r.choice((0, 0, 2, 10))):
            faults.append({"at": round(t + r.random() * (d + 0.3), 4), "act": r.choice(("hb", "unsol", "unsol", "lan"))})
        t += 200
        main.append({"op": "call", "name": "until", "t": t})
    for o in actors[0]["ops"]:
        if o["op"] == "connect" and r.random() < 0.05:
            faults.append({"connect": 0, "act": r.choice(("hang", "refuse", "oserror", "slow")), "delay": 0.3, "errno": r.choice(ERRNOS)})
            break
    if r.random() < 0.6:
        faults += req_faults(r, 30, ["drop", "late", "err", "crc", "hb", "trunc", "garbage", "dup", "unsol"], r.choice((0.1, 0.4)), late=(0.01, 1.0))
    for _ in range(r.randrange(0, 2)):
        faults.append(req_conn_fault(r, r.randrange(0, 20)))
    return {"cfg": cfg, "dongles": [{"topo": topo}], "actors": actors, "faults": faults, "horizon": 20000}


def build(plan):
    w = World(plan)

    async def close(w, cl, op, rec):
        """Right after close returned: the client's own activity must be gone; and it must stay gone."""
        for _ in range(op["times"]):
            await w.clients[cl].close()
        rec["closed"] = w.now
        while any(o["op"]["op"] == "close" and o["t1"] is None for o in w.ops):
            await asyncio.sleep(0.01)  # closes that overlap: the claim starts when the last of them returned
        t0, s0 = w.now, w.seq
        before = w.plant_state(cl)
        await asyncio.sleep(0.001)
        for t, o in w.background(cl):
            if o["op"]["op"] in ("connect", "close"):
                w.violate("background-activity-after-close", task=t.get_name(), since=o["op"])
        for cid, c in w.conn_info.items():
            if c["client"] == cl and c["closed"][0] is None:
                w.violate("connection-not-released", conn=cid)
        await asyncio.sleep(150)
        after = w.plant_state(cl)
        for k in before:
            if before[k] != after[k]:
                w.violate("plant-changed-after-close", field=k)
                break
        for x in w.tx:
            if x.client == cl and x.seq > s0:
                w.violate("transmission-after-close", sent=x.t, closed=t0, frame=repr(x.f))
                break
        for t, o in w.background(cl):
            w.violate("background-activity-left", task=t.get_name(), since=o["op"])
        rec["checked"] = True

    async def until(w, cl, op, rec):
        if op["t"] > w.now:
            await asyncio.sleep(op["t"] - w.now)

    async def final(w):
        for r in w.ops:
            e = r.get("exc")
            seen = set()
            while e is not None and id(e) not in seen:
                seen.add(id(e))
                e.__traceback__ = None
                e = e.__cause__ or e.__context__
        e = None
        gc.collect()
    w.extra.update(calls={"close": close, "until": until}, final=final)
    return w


def check(w):
    v = []
    for r in w.ops:
        k = r["op"]["op"]
        if (k == "close" or r["op"].get("name") == "close") and r["out"] != "ok" and not r.get("cancelled_by_plan"):
            v.append({"what": "close-failed", "out": r["out"], "exc": repr(r.get("exc"))})
        if k in ("call",):
            if r["op"]["name"] == "close" and (r.get("closed") is None or r["closed"] - r["t0"] > 15):
                v.append({"what": "close-not-bounded", "t0": r["t0"], "closed": r.get("closed")})
            continue
        if r["t1"] is None or r["t1"] - r["t0"] > bound(r["op"], w.cfg):
            v.append({"what": "call-in-flight-at-close-not-bounded", "op": r["op"], "t0": r["t0"], "t1": r["t1"]})
    for t, m, e in w.loop_errors:
        v.append({"what": "unretrieved-background-error", "t": t, "message": m, "exc": e})
        break
    return v


def nontrivial(w):
    for c in w.ops:
        if c.get("closed") is not None:
            if any(o["t0"] < c["closed"] and (o["t1"] is None or o["t1"] > c["t0"]) for o in w.ops
                   if o is not c and o["op"]["op"] in ("read", "cmd", "refresh", "load_config")):
                return True
    return False


def probes(w):
    out = {"checked_closes": sum(1 for r in w.ops if r.get("checked"))}
    for r in w.ops:
        if r["op"]["op"] in ("read", "cmd", "refresh", "load_config"):
            k = f"{r['op']['op']}:{r['out']}"
            out[k] = out.get(k, 0) + 1
    out["frames_arriving_after_close"] = sum(1 for x in w.rx if x.td is None)
    return out
