"""Reconnecting always recovers, with nothing left over."""
from ..gen import (ERRNOS, WRITE_REGS, client_cfg, conn_fault, net_cfg, read_op, req_conn_fault, req_faults, uniq_keys, write_op)
from ..topo import TOPO_POOL
from ..world import World

RUNS = {"quick": 2600, "thorough": 30000}
RULE = "a run counts when at least one connection was lost, closed or refused before the final reconnect; runs are the same when their " \
       "ordered event kinds coincide"


def gen(r, i, tier):
    topo = r.choice(TOPO_POOL)
    cfg = {"client": client_cfg(r), **net_cfg(r), "kernel_cap": r.choice((65536, 65536, 100, 40)), "hiwater": r.choice((65536, 65536, 60, 0))}
    keys = uniq_keys(r)

    def rd(**kw):
        return read_op(next(keys), r.choice((0.3, 1.0)), r.randrange(0, 3), retry_delay=r.choice((0, 0.2, 0.5)), **kw)
    main = [{"op": "connect"}]
    ncyc = r.randrange(1, 5)
    for _ in range(ncyc):
        for _ in range(r.randrange(0, 4)):
            x = r.random()
            if x < 0.5:
                main.append(rd())
            elif x < 0.65:
                main.append({"op": "probe", "timeout": 0.5})
            elif x < 0.75:
                main.append({"op": "detect", "timeout": 0.5, "retries": 1, "probe_timeout": 0.3, "probe_retries": 0})
            else:
                main.append({"op": "sleep", "t": round(r.uniform(0, 2), 3)})
            if r.random() < 0.15:
                main[-1]["cancel_after"] = round(r.random(), 4)
        if r.random() < 0.4:
            main.append({"op": "close"})
            if r.random() < 0.15:
                main[-1]["cancel_after"] = round(r.random() * 6, 4)
        if r.random() < 0.7:
            main.append({"op": "connect"})
            if r.random() < 0.1:
                main[-1]["cancel_after"] = round(r.random() * 2.5, 4)
    main = [o for o in main if not (o["op"] == "sleep" and "cancel_after" in o)]
    main += [{"op": "sleep", "t": round(r.uniform(0, 3), 3)}, {"op": "heal"}]
    k1, k2, k3 = (0x11, 3, 0, 60), (0x11, 3, 60, 60), (0x11, 3, 120, 60)
    if topo["model"] not in ("EMS", "EMS_COMMERCIAL"):
        k2, k3 = (0x11, 4, 0, 60), (0x11, 4, 180, 60)
    main += [{"op": "connect", "final": 1}, read_op(k1, 1.0, 0, final=1), {"op": "sleep", "t": 17.0}, read_op(k2, 1.0, 0, final=1),
             {"op": "sleep", "t": 3.0}, read_op(k3, 1.0, 0, final=1)]
    actors = [{"ops": main}]
    crowd = r.choice((0, 1, 3, 35))
    for _ in range(crowd):
        ops = []
        for _ in range(r.randrange(1, 5)):
            ops += [{"op": "sleep", "t": round(r.uniform(0, 3), 3)}, rd()]
            if r.random() < 0.1:
                ops[-1]["cancel_after"] = round(r.random() * 2, 4)
        actors.append({"start": round(r.uniform(0, 2), 3), "ops": ops})
    faults = []
    if r.random() < 0.6:
        faults += req_faults(r, 30, ["drop", "late", "err", "crc", "hb", "trunc", "garbage", "dup", "unsol", "zero"], r.choice((0.1, 0.3)))
    for _ in range(r.randrange(0, 4)):
        faults.append(req_conn_fault(r, r.randrange(0, 30), ("eof", "rst", "etimedout", "partial_eof", "partial_eof", "partial_eof", "stall")))
    for _ in range(r.randrange(0, 4)):
        faults.append(conn_fault(r, r.uniform(0, 10), ("eof", "rst", "etimedout", "stall", "stall_rx")))
        if r.random() < 0.2 and faults[-1]["act"] == "stall_rx":
            faults.append(conn_fault(r, faults[-1]["at"] + r.uniform(0.2, 9), ("eof", "rst", "etimedout")))
    if r.random() < 0.3:
        t = r.uniform(0, 6)
        faults.append({"at": round(t, 3), "act": r.choice(("down", "silent")), "how": r.choice(("refuse", "hang"))})
        faults += [{"at": round(t + r.uniform(0, 8), 3), "act": x} for x in ("up", "talk")]
    for n in range(1, 5):
        if r.random() < 0.2:
            faults.append({"connect": n, "act": r.choice(("hang", "refuse", "slow", "oserror")), "delay": round(r.uniform(0, 3), 3),
                           "errno": r.choice(ERRNOS)})
    return {"cfg": cfg, "dongles": [{"topo": topo}], "actors": actors, "faults": faults, "horizon": 20000}


def build(plan):
    w = World(plan)

    def on_conn(w):
        open_ = [cid for cid, c in w.conn_info.items() if c["closed"][0] is None]
        if len(open_) > 1 and not w.extra.get("two"):
            w.extra["two"] = True
            w.violate("two-connections-open", conns=open_)
    w.quiet_hooks.append(on_conn)
    return w


def check(w):
    v = []
    fin = [r for r in w.ops if r["op"].get("final")]
    tearing = [r for r in w.ops if r.get("cancelled_by_plan") and r["op"]["op"] in ("close", "connect")]
    for r in fin:
        if r["out"] == "ok" or len(fin) != 4 or not w.healthy:
            continue
        v.append({"what": "no-recovery-after-heal", "op": r["op"], "out": r["out"], "t0": r["t0"], "t1": r["t1"], "exc": repr(r.get("exc"))})
        break
    if not v and len(fin) == 4:
        if not fin[-1]["connected_after"]:
            v.append({"what": "disconnected-after-recovery"})
        last = max(w.conn_info)
        for r in fin[1:]:
            x = r["val"]
            good = [f for f in w.rx if f.conn == last and f.td is not None and f.f is not None and f.f.kind == "read" and f.f.crc_ok
                    and not f.f.error and f.f.key() == (x["addr"], x["func"], x["base"], x["count"])]
            if not good or good[-1].f.values != x["values"]:
                v.append({"what": "recovered-read-wrong-data", "op": r["op"]})
            elif r["op"]["final"] and any(a is None for a in x["cache"]):
                v.append({"what": "recovered-read-not-applied", "op": r["op"]})
    del tearing
    # nothing queued for a call that had already ended goes out on a later connection
    for r in w.ops:
        if r["op"]["op"] != "read" or r["op"].get("final") or r["t1"] is None:
            continue
        key = (r["op"]["addr"], r["op"]["func"], r["op"]["base"], r["op"]["count"])
        opened = [c["open_seq"] for c in w.conn_info.values() if c["open_seq"] > r["s1"]]
        if opened:
            for x in w.tx:
                if x.seq > min(opened) and x.f is not None and x.f.key() == key and w.conn_info[x.conn]["open_seq"] > r["s1"]:
                    v.append({"what": "stale-frame-on-new-connection", "op": r["op"], "out": r["out"], "t1": r["t1"], "t": x.t})
                    break
    # nor a call that was still waiting for its turn when its connection was closed
    life = [(o, min(c["open"] for c in open_)) for o in w.ops if o["op"]["op"] in ("close", "connect")
            for open_ in [[c for c in w.conn_info.values() if c["open"] < o["t0"] - 1e-6 and (c["closed"][0] is None or c["closed"][0] >= o["t0"])]] if open_]
    for r in w.ops:
        if r["op"]["op"] != "read":
            continue
        key = (r["op"]["addr"], r["op"]["func"], r["op"]["base"], r["op"]["count"])
        sent = [x for x in w.tx if x.f is not None and x.f.key() == key and x.seq > r["s0"] and (r["s1"] is None or x.seq < r["s1"])]
        if not sent:
            continue
        for o, opened in life:
            if opened < r["t0"] - 1e-6 < o["t0"] - 2e-6 and sent[0].t > o["t0"] and w.conn_info[sent[0].conn]["open"] > o["t0"]:
                v.append({"what": "queued-call-sent-on-the-next-connection", "op": r["op"], "t0": r["t0"], "closed": o["t0"], "t": sent[0].t})
                break
    return v


def nontrivial(w):
    return any(c["lost_at"] is not None or c["closed"][0] is not None for c in w.conn_info.values())


def probes(w):
    n = sum(1 for c in w.conn_info.values() if c["lost_at"] is not None)
    return {"connections": len(w.conn_info), "lost": n, "failed_connects": sum(1 for r in w.ops if r["op"]["op"] == "connect" and r["out"] != "ok"),
            "calls_in_flight_at_final_connect": sum(1 for r in w.ops for f in w.ops if f["op"].get("final") and f["op"]["op"] == "connect"
                                                    and r["t0"] < f["t0"] and (r["t1"] or 1e9) > f["t0"])}
