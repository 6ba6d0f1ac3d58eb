"""Transmissions are paced, ordered and whole."""
from ..gen import WRITE_REGS, client_cfg, conn_fault, net_cfg, read_op, req_faults, uniq_keys
from ..hist import History
from ..topo import LV_BATT  # noqa: F401
from ..topo import TOPO_POOL
from ..world import World

RUNS = {"quick": 2600, "thorough": 30000}
RULE = "a run counts when at least three frames competed for one connection; runs are the same when their ordered event kinds coincide"
EPS = 1e-7


def gen(r, i, tier):
    topo = r.choice([t for t in TOPO_POOL if "EMS" not in t["model"]])
    cfg = {"client": client_cfg(r), **net_cfg(r)}
    cfg["client"]["tx_message_wait"] = r.choice((0.0, 0.01, 0.1, 0.25, 0.25, 1.0))
    crowd = r.random() < 0.15
    if r.random() < 0.2:
        cfg.update(kernel_cap=r.choice((40, 200)), hiwater=r.choice((0, 60)))
    jam = r.random() < 0.12  # the peer reads haltingly while callers give up
    if jam:
        cfg.update(kernel_cap=r.choice((10, 30)), hiwater=0)
    keys = uniq_keys(r)
    regs = list(WRITE_REGS)
    r.shuffle(regs)
    main = [{"op": "connect"}]
    faults = []
    for _ in range(r.choice((0, 0, 1, 2))):
        main += [{"op": "sleep", "t": round(r.uniform(0.1, 5), 3)}, {"op": "connect"}]
    actors = [{"ops": main}]
    for _ in range(r.randrange(22, 50) if crowd else r.randrange(2, 14)):
        ops = []
        for _ in range(1 if crowd else r.randrange(1, 4)):
            ops.append({"op": "sleep", "t": round(r.choice((0.0, 0.01, 0.3, 1.0)) * r.random(), 4)})
            if r.random() < 0.85 or len(regs) < 4:
                ops.append(read_op(next(keys), r.choice((0.2, 1.0)), r.randrange(0, 3), retry_delay=r.choice((0, 0, 0.1, 0.5))))
            else:
                ops.append({"op": "cmd", "reqs": [{"op": "write", "reg": regs.pop(), "val": r.randrange(1, 60000)} for _ in range(r.randrange(1, 5))],
                            "timeout": 1.0, "retries": r.randrange(0, 2), "retry_delay": r.choice((0, 0.2))})
            if r.random() < (0.4 if jam else 0.08):
                ops[-1]["cancel_after"] = round(r.random() * r.choice((0.3, 2)), 4)
        actors.append({"start": round(0.02 + r.choice((0.0, 0.5)) * r.random(), 4), "ops": ops})
    for _ in range(r.choice((0, 1, 4, 8))):
        faults.append({"at": round(r.uniform(0.02, 3), 4), "act": "hb", "n": 1, "type": r.randrange(1, 5)})
    if r.random() < 0.6:
        faults += req_faults(r, 30, ["drop", "drop", "late", "err", "crc", "hb", "dup", "unsol"], r.choice((0.1, 0.5)), late=(0.05, 1.5))
    if r.random() < 0.2:
        faults.append(conn_fault(r, r.uniform(0.1, 4), ("eof", "rst", "etimedout", "stall_rx")))
    if jam:
        faults += [{"at": round(0.02 + 0.4 * k + 0.3 * r.random(), 3), "act": "stall_rx", "for": round(r.choice((0.1, 0.4)) * r.random() + 0.01, 3)} for k in range(r.randrange(3, 12))]
    return {"cfg": cfg, "dongles": [{"topo": topo, "lat": [0.005, r.choice((0.01, 0.2))]}], "actors": actors, "faults": faults, "horizon": 4000}


def build(plan):
    return World(plan)


def queued_at(w, h):
    """For every transmission whose moment of queueing follows from the history: (moment, tie-breaker)."""
    out = {}
    calls = []
    for r in w.ops:
        if r["op"]["op"] == "read":
            calls.append((r, h.key_of(r["op"]), 0))
        elif r["op"]["op"] == "cmd":
            for n, o in enumerate(r["op"]["reqs"]):
                calls.append((r, (0x11, 6, o["reg"]), n))
    for r, key, n in calls:
        to, rd = r["op"].get("timeout", 1.0), r["op"].get("retry_delay", 0.5)
        prev = None
        for x in w.tx:
            if x.f is None or x.f.key() != key:
                continue
            if prev is None:
                if not any(r["t0"] - 1e-6 < e.td < x.t + 1e-6 for e in h.err_frames(key)):
                    out[x.i] = (r["t0"], (r["id"], n))
            elif prev.i in out and out[prev.i][0] >= w.conn_info[prev.conn]["open"]:
                errs = [e.td for e in h.err_frames(key) if e.conn == prev.conn and prev.t < e.td < prev.t + to]
                if not errs:
                    out[x.i] = (prev.t + to + rd, None)
                else:
                    out[x.i] = (errs[0] + rd, None)
                if any(out[x.i][0] - 1e-6 < e.td < x.t + 1e-6 for e in h.err_frames(key)):
                    del out[x.i]  # a late error answer used up a queued attempt: when this one was queued is not observable
            # else: queued while the client was reconnecting - which answers it could see is not established here
            prev = x
    for cid in w.conn_info:
        beats = [x for x in w.rx if x.conn == cid and x.tag == "heartbeat" and x.td is not None]
        reps = [x for x in w.tx if x.conn == cid and x.f is not None and x.f.kind == "heartbeat"]
        for b, x in zip(beats, reps):
            out[x.i] = (b.td, None)
    return out


def most_queued(w):
    """Upper bound on frames waiting at any one time (the queue holds 20; beyond that callers wait their turn)."""
    ev = []
    for r in w.ops:
        n = len(r["op"]["reqs"]) if r["op"]["op"] == "cmd" else 1
        ev += [(r["t0"], n), (r["t1"] if r["t1"] is not None else 1e18, -n)]
    cur = top = 0
    for _t, n in sorted(ev, key=lambda e: (e[0], -e[1])):
        cur += n
        top = max(top, cur)
    return top + sum(1 for x in w.rx if x.tag == "heartbeat")


def check(w):
    v = []
    h = History(w)
    gap = w.cfg["client"]["tx_message_wait"]
    by = {}
    for x in w.tx:
        by.setdefault(x.conn, []).append(x)
        if x.f is None:
            v.append({"what": "malformed-transmission", "raw": x.raw.hex()})
    for cid, xs in by.items():
        for a, b in zip(xs, xs[1:]):
            if b.t - a.t < gap - EPS:
                v.append({"what": "frames-too-close", "gap": b.t - a.t, "configured": gap, "at": b.t, "frames": [repr(a.f), repr(b.f)]})
                break
    stalled = any(k for k in w.fired if "stall" in k) or w.cfg.get("kernel_cap", 65536) < 65536
    if stalled or most_queued(w) > 18:
        return v  # callers may wait for room in the queue: when a frame was queued does not follow from the history
    q = queued_at(w, h)
    for cid, xs in by.items():
        known = [(x, q[x.i]) for x in xs if x.i in q and q[x.i][0] >= w.conn_info[cid]["open"]]
        last = None
        for x, (t, tie) in known:
            if last is not None:
                y, (t2, tie2) = last
                if t < t2 - 1e-5 or (tie and tie2 and tie[0] == tie2[0] and tie[1] < tie2[1]):
                    v.append({"what": "sent-out-of-order", "first": repr(y.f), "queued": t2, "second": repr(x.f), "queued2": t, "conn": cid})
                    break
            if last is None or t >= last[1][0]:
                last = (x, (t, tie))
        else:
            continue
        break
    return v


def nontrivial(w):
    n = {}
    for x in w.tx:
        n[x.conn] = n.get(x.conn, 0) + 1
    return any(k >= 3 for k in n.values())


def probes(w):
    return {"frames": len(w.tx), "heartbeat_replies": sum(1 for x in w.tx if x.f and x.f.kind == "heartbeat"),
            "calls": len(w.ops), "crowded": int(len(w.plan["actors"]) > 18)}
