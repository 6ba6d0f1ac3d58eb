"""Retransmission is bounded and never gratuitous."""
from ..gen import halting, WRITE_REGS, client_cfg, conn_fault, net_cfg, read_op, req_conn_fault, uniq_keys, write_op
from ..hist import History
from ..topo import TOPO_POOL
from ..world import World

RUNS = {"quick": 3000, "thorough": 40000}
RULE = "a run counts when an answer was lost, late, duplicated or unsolicited; runs are the same when their ordered event kinds coincide"


def gen(r, i, tier):
    topo = r.choice([t for t in TOPO_POOL if "EMS" not in t["model"]])
    cfg = {"client": client_cfg(r), **net_cfg(r)}
    keys = uniq_keys(r)
    regs = list(WRITE_REGS)
    r.shuffle(regs)
    main = [{"op": "connect"}]
    for _ in range(r.choice((0, 0, 0, 1, 2))):
        if r.random() < 0.3:
            main += [{"op": "sleep", "t": round(r.uniform(0.1, 3), 3)}, {"op": "close"}]
        main += [{"op": "sleep", "t": round(r.uniform(0.1, 5), 3)}, {"op": "connect"}]
    actors = [{"ops": main}]
    faults = []
    for _ in range(r.randrange(1, 13)):
        ops = []
        for _ in range(r.randrange(1, 4)):
            ops.append({"op": "sleep", "t": round(r.choice((0.0, 0.01, 0.3, 1.0)) * r.random(), 4)})
            to, rt, rd = r.choice((0.2, 0.5, 1.0)), r.randrange(0, 4), r.choice((0, 0, 0.1, 0.5))
            if r.random() < 0.7 or not regs:
                ops.append(read_op(next(keys), to, rt, retry_delay=rd))
                o = ops[-1]
                key = f"{o['addr']}:{o['func']}:{o['base']}:{o['count']}"
            else:
                ops.append(write_op(regs.pop(), r.randrange(1, 60000), to, r.choice((0, 0, rt)), retry_delay=rd))
                key = f"17:6:{ops[-1]['reg']}"
            if r.random() < 0.1:
                ops[-1]["cancel_after"] = round(r.random() * 3, 4)
            for nth in range(rt + 1):
                x = r.random()
                if x < 0.35:
                    faults.append({"key": key, "nth": nth, "act": "late", "s": round(r.choice((to, to + rd, to + rd + 0.2, 2 * to + rd)) +
                                                                                     r.uniform(-0.1, 0.3), 4)})
                elif x < 0.5:
                    faults.append({"key": key, "nth": nth, "act": "drop"})
                elif x < 0.6:
                    faults.append({"key": key, "nth": nth, "act": r.choice(("err", "err", "crc", "null"))})
                elif x < 0.65:
                    faults.append({"key": key, "nth": nth, "act": "dup", "n": r.randrange(1, 4)})
                if x > 0.6 or r.random() > 0.4:
                    break
            if r.random() < 0.2 and "count" in ops[-1] and ops[-1]["func"] == 4:
                o = ops[-1]
                faults.append({"at": round(r.uniform(0.1, 3), 4), "act": "unsol", "addr": 0x11, "func": 4, "base": o["base"], "count": o["count"]})
        actors.append({"start": round(0.02 + r.choice((0.0, 0.5)) * r.random(), 4), "ops": ops})
    for _ in range(r.choice((0, 0, 1, 2))):
        faults.append(conn_fault(r, r.uniform(0.1, 5), ("eof", "rst", "etimedout", "stall")))
    if r.random() < 0.2:
        faults.append(req_conn_fault(r, r.randrange(0, 20), ("eof", "rst", "etimedout", "stall")))
    halting(r, cfg, faults)
    return {"cfg": cfg, "dongles": [{"topo": topo, "lat": [0.005, r.choice((0.01, 0.2))]}], "actors": actors, "faults": faults, "horizon": 4000}


def build(plan):
    return World(plan)


def check(w):
    v = []
    h = History(w)
    for r in w.ops:
        if r["op"]["op"] not in ("read", "write"):
            continue
        key = h.key_of(r["op"])
        to, rt, rd = r["op"]["timeout"], r["op"]["retries"], r["op"].get("retry_delay", 0.5)
        xs = [x for x in w.tx if x.f is not None and x.f.key() == key]
        if len(xs) > rt + 1:
            v.append({"what": "too-many-transmissions", "op": r["op"], "sent": [x.t for x in xs]})
        prev = None
        for x in xs:
            if x.seq < r["s0"]:
                v.append({"what": "transmitted-before-call", "op": r["op"], "at": x.t})
            if r["t1"] is not None and x.t > r["t1"] + 1e-9:
                v.append({"what": "transmitted-after-call-ended", "op": r["op"], "out": r["out"], "ended": r["t1"], "at": x.t})
            if prev is None:
                e = r["t0"]
            else:
                errs = [f.td for f in h.err_frames(key) if f.conn == prev.conn and prev.t < f.td <= x.t]
                e = (errs[0] if errs else prev.t + to) + rd
                if not errs and x.t < prev.t + to - 1e-7:
                    v.append({"what": "gratuitous-retransmission", "op": r["op"], "previous": prev.t, "at": x.t})
                elif errs and x.t < errs[0] - 1e-9:
                    v.append({"what": "gratuitous-retransmission", "op": r["op"], "previous": prev.t, "at": x.t})
            first, prev = prev is None, x
            if not first and w.cfg.get("kernel_cap", 65536) < 65536:
                continue  # the previous attempt's time started when its writing ended, which is not recorded
            for f in h.good_frames(key):
                if f.conn == x.conn and e + 1e-6 < f.td < x.t - 1e-6:
                    v.append({"what": "transmitted-although-answered", "op": r["op"], "queued": e, "answered": f.td, "at": x.t})
                    break
    return v


def nontrivial(w):
    return any(w.fired[k] for k in ("late", "drop", "dup", "at:unsol", "err", "crc"))


def probes(w):
    h = History(w)
    out = {"retransmissions": 0, "skipped_because_answered": 0}
    for r in w.ops:
        if r["op"]["op"] in ("read", "write"):
            n = len([x for x in w.tx if x.f is not None and x.f.key() == h.key_of(r["op"])])
            out["retransmissions"] += max(0, n - 1)
            if n == 0 and r["out"] == "ok":
                out["skipped_because_answered"] += 1
    return out
