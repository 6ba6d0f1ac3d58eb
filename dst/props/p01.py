from ..gen import halting, WRITE_REGS, client_cfg, keys_for, net_cfg, read_op, req_faults, uniq_keys, write_op
from ..gen import LV_TOPOS
from ..hist import History
from ..world import World

RUNS = {"quick": 3200, "thorough": 40000}


def gen(r, i, tier):
    topo = r.choice(LV_TOPOS)
    keys = keys_for(topo)
    r.shuffle(keys)
    regs = list(WRITE_REGS)
    r.shuffle(regs)
    nact = r.randrange(2, 8)
    cfg = {"client": client_cfg(r), **net_cfg(r)}
    actors = [{"ops": [{"op": "connect"}]}]
    timeout = r.choice((0.4, 1.0, 2.0))
    for a in range(nact):
        mine = keys[a::nact] or [keys[a % len(keys)]]
        wr = regs[a::nact]
        ops = []
        for j in range(r.randrange(1, 5)):
            if r.random() < 0.5:
                ops.append({"op": "sleep", "t": round(r.choice((0.0, 0.05, 0.3, 1.0)) * r.random(), 4)})
            rt = r.randrange(0, 3)
            rd = r.choice((0, 0.1, 0.5))
            if r.random() < 0.75:
                ops.append(read_op(r.choice(mine), timeout, rt, retry_delay=rd))
            else:
                ops.append(write_op(r.choice(wr), r.randrange(1, 60000), timeout, rt, retry_delay=rd))
            if r.random() < 0.06:
                ops[-1]["cancel_after"] = round(r.random() * timeout, 4)
        actors.append({"start": 0.05, "ops": ops})
    crowd = r.random() < 0.08  # more callers than the queue holds
    if crowd:
        cfg["client"]["tx_message_wait"] = r.choice((0.3, 0.5, 1.0))
        uk = (k for k in uniq_keys(r) if k not in keys and (k[1] == 4 or k[2] > 17))  # windows that cut a serial number in two are discarded
        actors += [{"start": round(0.05 + r.random() * r.choice((0.0, 3.0)), 3), "ops": [read_op(next(uk), timeout, r.randrange(2))]} for _ in range(r.randrange(20, 36))]
    n = 3 * len(actors)
    kinds = ["drop", "late", "late", "dup", "unsol", "unsol", "shape", "shape", "hb", "err", "crc", "null", "lan"]
    mode = r.random()
    faults = []
    if mode > 0.15:
        faults = req_faults(r, n, kinds, r.choice((0.1, 0.3, 0.6)), late=(0.0, timeout * 2.5))
    if r.random() < 0.15:
        faults += req_faults(r, n, ["trunc", "garbage"], 0.1)
    if r.random() < 0.2:
        actors[0]["ops"] += [{"op": "sleep", "t": round(r.uniform(0.1, 2.0), 3)}, {"op": "connect"}]
    halting(r, cfg, faults)
    return {"cfg": cfg, "dongles": [{"topo": topo, "lat": [0.005, r.choice((0.01, 0.1, 0.4))], "fanout": r.random() < 0.3}],
            "actors": actors, "faults": faults, "horizon": 300}


def build(plan):
    return World(plan)


def check(w):
    h = History(w)
    v = []
    damaged = h.damaged()
    for r in w.ops:
        k = r["op"]["op"]
        if k not in ("read", "write"):
            continue
        key = h.key_of(r["op"])
        if r["out"] == "ok":
            x = r["val"]
            if k == "read":
                if (x["cls"] not in ("ReadHoldingRegistersResponse", "ReadInputRegistersResponse") or x["error"]
                        or (x["addr"], x["func"], x["base"], x["count"]) != key):
                    v.append({"what": "foreign-response", "op": r["op"], "got": {q: x[q] for q in x if q not in ("values", "cache")}})
                    continue
                cands = [f for f in h.good_frames(key) if f.f.values == x["values"] and r["t0"] - 1e-9 <= f.td <= r["t1"] + 1e-9]
            else:
                if x["cls"] != "WriteHoldingRegisterResponse" or x["error"] or (x["addr"], x["func"], x["reg"]) != key or x["value"] != r["op"]["val"]:
                    v.append({"what": "foreign-response", "op": r["op"], "got": x})
                    continue
                cands = [f for f in h.good_frames(key) if f.f.value == x["value"] and r["t0"] - 1e-9 <= f.td <= r["t1"] + 1e-9]
            cur = h.conn_at(r["client"], r["t1"])
            # answered (on behalf of someone else) before it was sent, then a reconnect before its turn came: still the right answer
            cands = [f for f in cands if f.conn in cur or f.conn in h.conn_at(r["client"], f.td) and not any(x.t > f.td for x in h.attempts(r, key))]
            if damaged and k == "write":
                continue  # write acknowledgements carry no validated checksum: fragments can join into one (DESIGN.md, F8)
            if not cands:
                v.append({"what": "response-not-received-for-call", "op": r["op"], "t0": r["t0"], "t1": r["t1"],
                          "got": {q: x[q] for q in x if q not in ("values", "cache")}})
                continue
            if 0x32 <= key[0] <= 0x37 or all(f.tag == "misshaped" for f in cands):
                continue  # a data-quality guard may keep this reading out (P11-P14 decide that)
            first = min(f.seqd for f in cands)
            base, count = (key[2], key[3]) if k == "read" else (key[2], 1)
            func = 3 if k == "write" else key[1]
            if damaged and func == 3:
                continue
            for n in range(count):
                reg = base + n
                if k == "write" and reg == 0:
                    continue
                ok = h.values_for(key[0], func, reg, first, r["s1"])
                if x["cache"][n] not in ok:
                    v.append({"what": "response-not-visible-at-return", "op": r["op"], "reg": reg, "cache": x["cache"][n],
                              "allowed": sorted(ok)})
                    break
        elif r["out"] in ("TimeoutError", "ConnectionLost", "CancelledError", "RuntimeError", "HUNG"):
            if r.get("cancelled_by_plan"):
                continue
            closes = [c for c in w.ops if c["op"]["op"] in ("close", "connect") and c["client"] == r["client"]
                      and c["t0"] <= (r["t1"] if r["t1"] is not None else 1e18) and (c["t1"] is None or c["t1"] >= r["t0"])]
            if closes:
                continue
            if r["out"] == "CancelledError":
                v.append({"what": "call-cancelled-by-another", "op": r["op"]})
                continue
            if damaged:
                continue
            a = h.missed_answer(r, key)
            if a:
                v.append({"what": "answered-call-failed", "op": r["op"], "out": r["out"], **a})
    return v


def nontrivial(w):
    return bool(w.fired) and len(w.reqs) > 2


def probes(w):
    h = History(w)
    p = {"calls_ok": sum(1 for r in w.ops if r["out"] == "ok" and r["op"]["op"] in ("read", "write")),
         "calls_failed": sum(1 for r in w.ops if r["out"] not in ("ok", None) and r["op"]["op"] in ("read", "write")),
         "late_frames_between_calls": 0, "overlapping_calls": h.overlaps()}
    return p
