"""Connection loss is reported promptly and uniformly."""
from ..gen import ERRNOS, client_cfg, conn_fault, net_cfg, read_op, req_conn_fault, req_faults, uniq_keys, write_op, WRITE_REGS
from ..gen import LV_TOPOS
from ..hist import History
from ..world import World

RUNS = {"quick": 3200, "thorough": 40000}
RULE = "a run counts when the connection dropped unexpectedly; runs are the same when their ordered event kinds coincide"
DRAIN = 10.0  # documented bound of a stalled write


def gen(r, i, tier):
    topo = r.choice(LV_TOPOS)
    cfg = {"client": client_cfg(r), **net_cfg(r)}
    keys = uniq_keys(r)
    regs = list(WRITE_REGS)
    r.shuffle(regs)

    def one():
        if regs and r.random() < 0.2:
            return write_op(regs.pop(), r.randrange(1, 60000), r.choice((0.5, 2.0)), r.randrange(0, 3), retry_delay=r.choice((0, 0.3)))
        return read_op(next(keys), r.choice((0.5, 2.0)), r.randrange(0, 3), retry_delay=r.choice((0, 0.3)))
    n = r.choice((0, 1, 3, 8, 30))
    actors = []
    stall_mode = r.random() < 0.15
    if stall_mode:
        cfg["kernel_cap"], cfg["hiwater"] = r.choice((30, 60, 100)), r.choice((0, 20, 60))
    main = [{"op": "connect"}, {"op": "sleep", "t": round(r.uniform(0, 4), 3)}]
    for _ in range(r.randrange(0, 3)):
        main.append(one())
        main.append({"op": "sleep", "t": round(r.uniform(0, 2), 3)})
    # after the loss: requests that must fail at once, a reconnect that may fail, and more
    main.append({"op": "sleep", "t": 45.0 if stall_mode else 12.0})
    main += [one() for _ in range(r.randrange(0, 3))]
    nfail = r.randrange(0, 3)
    for _ in range(nfail):
        main += [{"op": "connect"}] + [one() for _ in range(r.randrange(0, 3))]
        if r.random() < 0.2:
            main.append({"op": "close"})
            main.append(one())
    if r.random() < 0.5:
        main += [{"op": "connect"}, one()]
    actors.append({"ops": main})
    for _ in range(n):
        ops = []
        for _ in range(r.randrange(1, 3)):
            ops += [{"op": "sleep", "t": round(r.uniform(0, 3), 4)}, one()]
        actors.append({"start": 0.05, "ops": ops})
    faults = req_faults(r, 20, ["drop", "late", "err", "crc"], r.choice((0, 0.2, 0.5)))
    if stall_mode:
        faults.append({"at": round(r.uniform(0.1, 3), 4), "act": "stall_rx"})
        if r.random() < 0.5:  # and then the link dies while a write is blocked
            faults.append(conn_fault(r, faults[-1]["at"] + r.uniform(0.3, 9.5), ("eof", "rst", "etimedout")))
    elif r.random() < 0.5:
        faults.append(conn_fault(r, r.uniform(0.02, 6), ("eof", "rst", "etimedout")))
    else:
        faults.append(req_conn_fault(r, r.randrange(0, 12), ("eof", "rst", "etimedout", "partial_eof")))
    if r.random() < 0.2 and not stall_mode:
        faults.append({"at": round(r.uniform(0.1, 4), 3), "act": "hb", "n": r.choice((1, 3, 40)), "type": 1})
    for c in range(1, 1 + nfail):
        faults.append({"connect": c, "act": r.choice(("hang", "refuse", "oserror")), "delay": round(r.uniform(0, 1), 3), "errno": r.choice(ERRNOS)})
    return {"cfg": cfg, "dongles": [{"topo": topo}], "actors": actors, "faults": faults, "horizon": 4000, "settle": 0.5}


def losses(w):
    """Unexpected drops: (conn, t, lifecycle-free)."""
    out = []
    life = [r for r in w.ops if r["op"]["op"] in ("close", "connect")]
    for cid, c in w.conn_info.items():
        if c["lost_at"] is None:
            continue
        if any(r["t0"] <= c["lost_at"] and (r["t1"] is None or r["t1"] >= c["lost_at"]) and r["s0"] > c["open_seq"] for r in life):
            continue  # the caller was closing or reconnecting at that very moment
        out.append((cid, c))
    return out


def build(plan):
    w = World(plan)
    hb = sum(f.get("n", 1) for f in plan["faults"] if f["act"] == "hb")
    cl = w.cfg["client"]
    # a heartbeat flood fills the transmit queue, and reception waits behind it and every competing caller
    work = hb + 21 + sum(o.get("retries", 0) + 1 for a in plan["actors"] for o in a["ops"] if o["op"] in ("read", "write"))
    grace = 0.02 + (work * (cl["tx_message_wait"] + cl["tx_jitter"]) if hb else 0)
    w.grace = grace

    def quiet(w):
        for cid, c in w.conn_info.items():
            if c["lost_at"] is None or c.get("seen"):
                continue
            if w.now > c["lost_at"] + grace:
                c["seen"] = True
                newer = any(o["open_seq"] > c["open_seq"] for o in w.conn_info.values())
                busy = any(r["t1"] is None and r["op"]["op"] == "connect" for r in w.ops)
                if w.clients[0].connected and not newer and not busy:
                    w.violate("connected-after-loss", conn=cid, kind=c["lost_kind"], lost_at=c["lost_at"])
    w.quiet_hooks.append(quiet)
    return w


def check(w):
    h = History(w)
    v = []
    life = [r for r in w.ops if r["op"]["op"] in ("close", "connect")]
    reqs = [r for r in w.ops if r["op"]["op"] in ("read", "write")]
    spans = []
    for cid, c in losses(w):
        end = min([r["t1"] if r["t1"] is not None else 1e9 for r in w.ops
                   if r["op"]["op"] == "connect" and r["s0"] > c["lost_seq"] and r["out"] == "ok"], default=1e9)
        spans.append((c["lost_at"], c["lost_seq"], end))
        for r in reqs:
            if r.get("cancelled_by_plan") or r["out"] == "cancelled-by-plan":
                continue
            t1 = r["t1"] if r["t1"] is not None else 1e9
            if r["t0"] < c["lost_at"] - 1e-9 and t1 > c["lost_at"] + w.grace and r["s0"] > c["open_seq"]:
                rd = r["op"].get("retry_delay", 0.5)
                lim = c["lost_at"] + w.grace + rd + 0.001
                if any(x["s0"] > c["lost_seq"] and x["t0"] <= lim for x in life):
                    continue
                if t1 > lim or r["out"] != "ConnectionLost":
                    v.append({"what": "in-flight-not-failed-by-loss", "op": r["op"], "out": r["out"], "t0": r["t0"], "t1": r["t1"],
                              "lost_at": c["lost_at"], "kind": c["lost_kind"]})
    for t, s, end in spans:
        for r in reqs:
            if r["t0"] > t + w.grace and r["s0"] > s and r["t0"] < end:
                # a connect in progress that later succeeds ends the outage at an unobservable instant inside it
                if any(x["op"]["op"] == "connect" and x["out"] == "ok" and x["t0"] <= r["t0"] <= (x["t1"] or 1e9) for x in life):
                    continue
                if r["out"] != "ConnectionLost" or r["t1"] is None or r["t1"] - r["t0"] > 0.001:
                    v.append({"what": "request-while-lost-not-immediate", "op": r["op"], "out": r["out"], "t0": r["t0"], "t1": r["t1"],
                              "lost_at": t})
    for r in reqs:
        if r["out"] == "ConnectionLost" and r["t1"] is not None:
            key = h.key_of(r["op"])
            for x in w.tx:
                if x.f is not None and x.f.key() == key and x.seq > r["s1"]:
                    v.append({"what": "retransmitted-after-loss", "op": r["op"], "t": x.t})
        if r["out"] == "ConnectionLost":
            e = r["exc"]
            if not (isinstance(e, TimeoutError) and "CommunicationError" in r["is"]):
                v.append({"what": "loss-type", "is": r["is"]})
    if not v:
        v += stall_check(w, reqs, life)
    return v


def stall_check(w, reqs, life):
    """Peer stops reading with full buffers: the blocked write must be turned into a loss after the documented bound."""
    v = []
    for cid, c in w.conn_info.items():
        for t_block, end in c["conn"].pauses[0]:
            t_block -= w.loop.t0
            if end is not None and end - w.loop.t0 < t_block + DRAIN + 0.1:
                continue
            if c["lost_at"] is not None and c["lost_at"] < t_block + DRAIN + 0.1:
                continue
            if any(t_block - 1e-9 <= r["t0"] <= t_block + DRAIN + 0.1 for r in life):
                continue
            lim = t_block + DRAIN + 0.1
            c["stalled_write"] = True
            later = [x for x in w.tx if x.conn == cid and x.t > t_block + 1e-6]
            if later:
                v.append({"what": "transmitted-while-write-stalled", "t": later[0].t, "t_block": t_block})
            for r in reqs:
                t1 = r["t1"] if r["t1"] is not None else 1e9
                if r.get("cancelled_by_plan") or r["t0"] >= t_block + DRAIN - 0.2 or t1 < t_block + DRAIN - 0.001:
                    continue
                if t1 > lim + r["op"].get("retry_delay", 0.5) or r["out"] != "ConnectionLost":
                    v.append({"what": "stalled-write-not-reported-as-loss", "op": r["op"], "t_block": t_block, "out": r["out"], "t1": r["t1"]})
            for r in reqs:
                if lim < r["t0"] and not any(x["t0"] > t_block and x["t0"] <= r["t0"] for x in life) and \
                        (r["out"] != "ConnectionLost" or r["t1"] - r["t0"] > 0.001):
                    v.append({"what": "request-while-lost-not-immediate", "op": r["op"], "out": r["out"], "t0": r["t0"]})
    return v


def nontrivial(w):
    return bool(losses(w)) or any(c.get("stalled_write") for c in w.conn_info.values())


def probes(w):
    p = {}
    for cid, c in losses(w):
        p["loss:" + c["lost_kind"]] = p.get("loss:" + c["lost_kind"], 0) + 1
    p["stalled_writes"] = sum(1 for c in w.conn_info.values() if c.get("stalled_write"))
    p["failed_by_loss"] = sum(1 for r in w.ops if r["out"] == "ConnectionLost")
    return p
