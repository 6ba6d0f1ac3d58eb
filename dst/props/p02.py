"""Every public call finishes in bounded time."""
from ..gen import (bound, client_cfg, conn_fault, keys_for, net_cfg, read_op, req_conn_fault, req_faults, uniq_keys, write_op, WRITE_REGS,
                   ERRNOS)
from ..topo import TOPO_POOL
from ..world import World

RUNS = {"quick": 2600, "thorough": 30000}
RULE = "a run counts when a fault fired while at least one call was in flight; two runs are the same when their ordered event kinds " \
       "(operations, frames by content, faults, connection events) coincide"


def gen(r, i, tier):
    topo = r.choice(TOPO_POOL)
    cfg = {"client": client_cfg(r), **net_cfg(r), "kernel_cap": r.choice((65536, 65536, 300, 60)), "hiwater": r.choice((65536, 65536, 100, 20))}
    keys = uniq_keys(r)

    def rd():
        return read_op(next(keys), r.choice((0.3, 1.0)), r.randrange(0, 3), retry_delay=r.choice((0, 0.2, 0.5)))

    def main_op():
        k = r.choice(("connect", "connect", "close", "refresh", "load_config", "probe", "detect", "sleep", "sleep", "reads"))
        t = r.choice((0.3, 1.0))
        if k == "detect":
            o = {"op": "detect", "timeout": t, "retries": r.randrange(0, 2), "probe_timeout": 0.3, "probe_retries": r.randrange(0, 2)}
        elif k in ("refresh", "load_config"):
            o = {"op": k, "timeout": t, "retries": r.randrange(0, 2), "retry_delay": r.choice((0, 0.3))}
        elif k == "probe":
            o = {"op": "probe", "timeout": t, "retries": r.randrange(0, 2)}
        elif k == "sleep":
            return {"op": "sleep", "t": round(r.uniform(0, 3), 3)}
        elif k == "reads":
            o = rd()
        else:
            o = {"op": k}
        if r.random() < 0.12 and k not in ("close",):
            o["cancel_after"] = round(r.random() * 2, 4)
        return o
    main = [{"op": "connect"}]
    if r.random() < 0.6:
        main.append({"op": "detect", "timeout": 1.0, "retries": 1, "probe_timeout": 0.3, "probe_retries": 0})
    main += [main_op() for _ in range(r.randrange(2, 8))]
    actors = [{"ops": main}]
    for _ in range(r.randrange(0, 4)):
        ops = []
        for _ in range(r.randrange(1, 5)):
            if r.random() < 0.6:
                ops.append({"op": "sleep", "t": round(r.uniform(0, 4), 3)})
            x = r.random()
            if x < 0.6:
                ops.append(rd())
            elif x < 0.8:
                regs = r.sample(WRITE_REGS, r.randrange(1, 4))
                ops.append({"op": "cmd", "reqs": [{"op": "write", "reg": g, "val": r.randrange(1, 60000)} for g in regs],
                            "timeout": r.choice((0.3, 1.5)), "retries": r.randrange(0, 2), "retry_delay": r.choice((0, 0.3))})
            elif x < 0.9:
                ops.append({"op": "capture", "duration": round(r.uniform(0, 5), 3), "sink_raises": r.choice((0, 0, 2))})
            else:
                ops.append({"op": "close"})
            if r.random() < 0.1:
                ops[-1]["cancel_after"] = round(r.random() * 2, 4)
        actors.append({"start": round(r.uniform(0, 2), 3), "ops": ops})
    if r.random() < 0.15:  # a crowd: more callers than the transmit queue holds
        for _ in range(r.randrange(15, 45)):
            actors.append({"start": round(r.uniform(0.1, 1), 3), "ops": [rd()]})
    faults = []
    if r.random() < 0.7:
        faults += req_faults(r, 40, ["drop", "late", "err", "crc", "hb", "null", "trunc", "garbage", "dup", "zero"], r.choice((0.1, 0.3, 0.8)))
    for _ in range(r.randrange(0, 3)):
        faults.append(req_conn_fault(r, r.randrange(0, 60)))
    for _ in range(r.randrange(0, 3)):
        t = r.uniform(0, 12)
        f = conn_fault(r, t, ("eof", "rst", "etimedout", "stall", "stall_rx"))
        if f["act"].startswith("stall") and r.random() < 0.3:
            f["for"] = round(r.uniform(0.1, 20), 2)
        faults.append(f)
    if r.random() < 0.3:
        t = r.uniform(0, 8)
        faults.append({"at": round(t, 3), "act": r.choice(("down", "silent")), "how": r.choice(("refuse", "hang"))})
        if r.random() < 0.6:
            faults += [{"at": round(t + r.uniform(0, 10), 3), "act": x} for x in ("up", "talk")]
    if r.random() < 0.15:
        faults.append({"at": round(r.uniform(0.1, 8), 3), "act": "hb", "n": r.choice((5, 30, 60)), "type": 1})
    for n in range(4):
        if r.random() < 0.15:
            faults.append({"connect": n, "act": r.choice(("hang", "refuse", "slow", "oserror")), "delay": round(r.uniform(0, 4), 3),
                           "errno": r.choice(ERRNOS)})
    return {"cfg": cfg, "dongles": [{"topo": topo, "absent_bank": r.choice(("error", "silent"))}], "actors": actors, "faults": faults,
            "horizon": 20000}


def build(plan):
    return World(plan)


COMM = {"CommunicationError", "ConnectionLost"}
WAIT = {"ok", "TimeoutError", "ConnectionLost", "CancelledError"}
POLL = WAIT | {"RefreshFailed", "RefreshPartiallySucceeded", "PlantNotDetected"}
OUTCOMES = {"connect": {"ok", "CommunicationError"}, "close": {"ok"}, "read": WAIT, "write": WAIT, "refresh": POLL, "load_config": POLL,
            "cmd": WAIT | {"InvalidPduState"}, "detect": WAIT | COMM | {"PlantTopologyMismatch"}, "probe": {"ok", "CancelledError"},
            "capture": {"ok", "RuntimeError"}}  # RuntimeError: a capture is already running


def check(w):
    v = []
    for r in w.ops:
        ok = OUTCOMES.get(r["op"]["op"])
        if ok is not None and r["t1"] is not None and r["out"] not in ok and not r.get("cancelled_by_plan"):
            v.append({"what": "undocumented-failure", "op": r["op"], "out": r["out"], "exc": repr(r.get("exc"))})
        b = bound(r["op"], w.cfg)
        if r["t1"] is None:
            v.append({"what": "call-never-finished", "op": r["op"], "t0": r["t0"]})
        elif r["t1"] - r["t0"] > b:
            v.append({"what": "call-exceeded-bound", "op": r["op"], "took": r["t1"] - r["t0"], "bound": b})
        elif "cancel_t" in r and r["t1"] - r["cancel_t"] > 15.0:
            v.append({"what": "cancellation-not-prompt", "op": r["op"], "cancel": r["cancel_t"], "end": r["t1"]})
        elif r["op"]["op"] == "capture" and r["out"] == "ok" and r["t1"] - r["t0"] < r["op"]["duration"] - 1e-6:
            v.append({"what": "capture-ended-early", "op": r["op"]})
    return v


def nontrivial(w):
    return bool(w.fired) and len(w.ops) > 2


def probes(w):
    return {f"{r['op']['op']}:{r['out']}": 1 for r in w.ops}
