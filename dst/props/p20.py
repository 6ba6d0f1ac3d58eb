"""The liveness probe tells the truth and never raises."""
from ..gen import ERRNOS
from ..hist import History
from ..topo import TOPO_POOL
from ..world import World

RUNS = {"quick": 4000, "thorough": 60000}
KEY = (0x11, 3, 0, 60)
BAD = ("drop", "crc", "crc0", "err", "null", "late", "zero", "flip", "trunc", "susp", "prebad", "unsol", "dup", "shape")


def gen(r, i, tier):
    topo = r.choice(TOPO_POOL)
    cfg = {"client": {"tx_message_wait": r.choice((0.0, 0.02, 0.25)), "tx_jitter": r.choice((0.0, 0.1))}, "seg": r.choice(("whole", "random", "bytes")),
           "coalesce": r.random() < 0.5, "lat": [0.001, r.choice((0.003, 0.02))]}
    ops, faults = [], []
    nth = 0
    if r.random() < 0.1:  # a probe before any connection
        ops.append({"op": "call", "name": "probe", "timeout": 0.5, "retries": 0})
    ops.append({"op": "connect"})
    if r.random() < 0.6:  # an earlier healthy session leaves a reading behind
        ops.append({"op": "read", "addr": 0x11, "func": 3, "base": 0, "count": 60, "timeout": 2.0, "retries": 0})
        nth += 1
    for _ in range(r.randrange(1, 5)):
        to, rt = r.choice((0.2, 0.5, 2.0)), r.choice((0, 0, 1, 2))
        if r.random() < 0.3:
            ops.append({"op": "sleep", "t": round(r.uniform(0, 3), 3)})
        if r.random() < 0.15:
            ops += [{"op": "close"}, {"op": "connect"}]
        ops.append({"op": "call", "name": "probe", "timeout": to, "retries": rt})
        if r.random() < 0.75:
            for k in range(nth, nth + rt + 1):
                f = {"key": "17:3:0:60", "nth": k, "act": r.choice(BAD), "s": round(to * r.choice((0.5, 0.9, 1.1, 2.0)), 3)}
                if r.random() < 0.3:
                    f = {"key": "17:3:0:60", "nth": k, "act": r.choice(("eof", "rst", "etimedout", "partial_eof", "stall", "stall_rx")),
                         "errno": r.choice(ERRNOS), "frac": round(r.random(), 2), "for": r.choice((0.1, 1.0, 50.0)),
                         "delay": round(r.choice((0, 0, 0.01, 0.3)) * r.random(), 4)}
                    if r.random() < 0.3:
                        f["when"] = "before"
                faults.append(f)
                if r.random() < 0.3:
                    break
        nth += rt + 1
        ops.append({"op": "call", "name": "again"})
    if r.random() < 0.3:
        faults.append({"at": round(r.uniform(0, 6), 3), "act": r.choice(("silent", "down", "eof", "rst", "etimedout", "stall"))})
    if r.random() < 0.25:
        faults += [{"at": round(r.uniform(0, 8), 3), "act": "skew", "s": r.choice((-3600, -5, 5, 86400))} for _ in range(r.randrange(1, 3))]
    for _ in range(r.choice((0, 3, 8))):
        faults.append({"at": round(r.uniform(0, 6), 3), **r.choice(({"act": "unsol"}, {"act": "hb"}, {"act": "lan"},
                                                                    {"act": "unsol", "addr": 0x11, "func": 3, "base": 0, "count": 60}))})
    if r.random() < 0.2:
        faults.append({"connect": r.randrange(1, 4), "act": r.choice(("hang", "refuse")), "delay": 0.01})
    ops += [{"op": "heal"}, {"op": "sleep", "t": 0.1}, {"op": "connect"}, {"op": "call", "name": "probe", "timeout": 5.0, "retries": 1, "final": True}]
    actors = [{"ops": ops}]
    if r.random() < 0.25:  # other reads share the link
        actors.append({"start": 0.1, "ops": [{"op": "read", "addr": 0x11, "func": r.choice((3, 4)), "base": 60 * (k % 4) + 1, "count": 30,
                                              "timeout": 0.5, "retries": 0} for k in range(r.randrange(1, 10))]})
    return {"cfg": cfg, "dongles": [{"topo": topo, "lat": [0.004, r.choice((0.01, 0.1))]}], "actors": actors, "faults": faults, "horizon": 4000}


def build(plan):
    w = World(plan)
    w.extra["probes"] = []

    async def probe(w, cl, op, rec):
        c = w.clients[cl]
        p = {"t0": w.now, "s0": w.tick(), "op": op, "out": "never", "conn": [k for k, x in w.conn_info.items() if x["closed"][0] is None],
             "connected": c.connected, "stamp0": c.plant.register_block_updated_at.get((0x11, "HR", 0, 60))}
        w.extra["probes"].append(p)
        try:
            p["out"] = await c.probe_alive(timeout=op["timeout"], retries=op["retries"])
        except BaseException as e:  # noqa: BLE001
            p["out"] = type(e).__name__
            raise
        finally:
            p.update(t1=w.now, s1=w.tick(), after=c.connected, open=[k for k, x in w.conn_info.items() if x["closed"][0] is None])

    async def again(w, cl, op, rec):
        """Reconnect as an application would after a dead probe."""
        c = w.clients[cl]
        if not c.connected:
            try:
                await c.connect()
            except Exception:  # noqa: BLE001
                pass
    w.extra["calls"] = {"probe": probe, "again": again}
    return w


def check(w):
    v = []
    h = History(w)
    for p in w.extra["probes"]:
        info = {"t": [p["t0"], p.get("t1")], "op": p["op"], "out": p["out"]}
        if "t1" not in p:
            v.append({"what": "probe-never-returned", **info})
            continue
        if p["out"] not in (True, False):
            v.append({"what": "probe-raised", **info})
            continue
        # room for the queue wait, the attempts and a bounded teardown
        if p["t1"] - p["t0"] > 40 + (p["op"]["timeout"] + 0.5) * (p["op"]["retries"] + 1):
            v.append({"what": "probe-took-too-long", **info})
        good = [x for x in h.good_frames(KEY) if any(x.f.values)]
        during = [x for x in good if p["s0"] <= x.seqd <= p["s1"]]
        lost = [c for k, c in w.conn_info.items() if c["lost_at"] is not None and c["lost_at"] <= p["t1"] + 1e-6 and k in p["conn"]]
        if p["out"]:
            if not during:
                v.append({"what": "alive-without-a-fresh-reading", **info})
            if not lost and not (p["after"] and p["open"]):
                v.append({"what": "alive-but-closed", **info})
        else:
            if p["after"] or set(p["open"]) & set(p["conn"]):
                v.append({"what": "dead-but-left-open", "open": p["open"], **info})
            for x in w.tx:
                if x.f is None or x.f.key() != KEY or not p["s0"] <= x.seq <= p["s1"]:
                    continue
                end = x.t + p["op"]["timeout"] - 0.005
                answers = sorted([y for y in h.good_frames(KEY) + h.err_frames(KEY) if y.seqd > x.seq and y.td < end], key=lambda y: y.seqd)
                cut = [c for c in lost if c["lost_at"] <= end]
                if answers and answers[0] in good and not cut and p["connected"] and answers[0].seqd <= p["s1"] and _clean(w, answers[0], x):
                    v.append({"what": "answered-but-called-dead", "sent": x.t, "answered": answers[0].td, **info})
            if p["op"].get("final") and p["connected"]:
                v.append({"what": "healthy-peer-called-dead", **info})
    return v


def _clean(w, ans, tx):
    """The answer came on the same connection and nothing damaged before it could swallow it."""
    return ans.conn == tx.conn and not any(x.conn == ans.conn and not x.intact and x.t <= ans.td for x in w.rx)


def probes(w):
    out = {}
    for p in w.extra["probes"]:
        k = {True: "alive", False: "dead"}.get(p["out"], str(p["out"]))
        out[k] = out.get(k, 0) + 1
        out["with_old_reading"] = out.get("with_old_reading", 0) + (p["stamp0"] is not None)
    return out


def nontrivial(w):
    return any(p["out"] is False for p in w.extra["probes"])
