"""Acknowledged writes are visible, unacknowledged ones are not."""
from .. import wire
from ..gen import halting, ERRNOS, WRITE_REGS, client_cfg, net_cfg, read_op, write_op
from . import guard

RUNS = {"quick": 2500, "thorough": 40000}
EPS = 1e-6
# registers the inverter view shows unconverted, and as on/off
NAMED = {50: "active_power_rate", 110: "battery_soc_reserve", 111: "battery_charge_limit", 112: "battery_discharge_limit",
         114: "battery_discharge_min_power_reserve", 116: "charge_target_soc"}
ON_OFF = {20: "enable_charge_target", 59: "enable_discharge", 96: "enable_charge"}
TOPOS = [{"model": "HYBRID_GEN1", "batteries": [0x32]}, {"model": "AC", "batteries": [0x32], "meters": [1]}, {"model": "HYBRID_GEN3", "batteries": []}]
RULE = "a run counts when some write was acknowledged and some was not; two runs are the same when their ordered event kinds coincide"
BANKS = [(0x11, 3, 0, 60), (0x11, 3, 60, 60), (0x11, 3, 90, 30), (0x11, 3, 20, 7), (0x11, 3, 40, 30), (0x11, 4, 0, 60), (0x32, 4, 60, 60), (0x11, 3, 110, 8)]


def gen(r, i, tier):
    topo = r.choice(TOPOS)
    regs = list(WRITE_REGS)
    r.shuffle(regs)
    timeout = r.choice((0.3, 1.0, 1.5))
    lat = r.choice((0.01, 0.1, 0.5))
    actors = [{"ops": [{"op": "connect"}]}]
    nw = r.randrange(1, 5)
    for a in range(nw):
        mine = regs[a::nw]
        ops = []
        for _ in range(r.randrange(1, 8)):
            x = r.random()
            val = r.choice((0, 1, r.randrange(65536), r.randrange(65536)))
            reg = r.choice(mine[:3] if r.random() < 0.7 else regs)
            if x < 0.65:
                op = write_op(reg, val, timeout, r.choice((0, 0, 1, 2)), retry_delay=r.choice((0.0, 0.2)))
            elif x < 0.85:
                some = r.sample(mine, min(len(mine), r.randrange(1, 4)))
                op = {"op": "cmd", "reqs": [{"op": "w", "reg": g, "val": r.randrange(65536)} for g in some], "timeout": timeout, "retries": r.randrange(2),
                      "retry_delay": 0.1}
                if r.random() < 0.2:
                    op["dry_run"] = True
            else:  # refused before anything is sent
                op = {"op": "cmd", "reqs": [{"op": "w", "reg": g, "val": r.randrange(65536)} for g in r.sample([21, 30, 58, 97, 700, mine[0]], 2)],
                      "timeout": timeout}
            if r.random() < 0.15:
                op["cancel_after"] = round(r.random() * timeout, 4)
            ops += [op, {"op": "sleep", "t": round(r.choice((0, 0.5)) * r.random(), 4)}]
        actors.append({"start": round(0.02 + r.random() * 0.5, 4), "ops": ops})
    for _ in range(r.randrange(0, 3)):
        ops = []
        for _ in range(r.randrange(2, 10)):
            ops += [read_op(r.choice(BANKS), 0.5, 0), {"op": "sleep", "t": round(r.random(), 3)}]
        actors.append({"start": round(0.02 + r.random(), 4), "ops": ops})
    if r.random() < 0.4:
        ops = []
        for _ in range(r.randrange(1, 4)):
            ops += [{"op": "sleep", "t": round(r.uniform(0.1, 3), 3)}] + r.choice(([{"op": "close"}], [])) + [{"op": "connect"}]
        actors.append({"ops": ops})
    faults = []
    for n in range(40):
        if r.random() < 0.4:
            k = r.choice(("drop", "drop", "err", "late", "late", "dup", "clamp", "clamp", "reg0", "null", "hb", "unsol", "lan", "crc", "eof", "rst", "etimedout"))
            if k in ("eof", "rst", "etimedout") and r.random() < 0.6:
                k = "late"
            f = {"req": n, "act": k}
            if k == "late":
                f["s"] = round(timeout * r.choice((0.4, 0.9, 1.1, 2, 4)), 3)
            if k in ("eof", "rst", "etimedout"):
                f["errno"] = r.choice(ERRNOS)
                if r.random() < 0.3:
                    f["when"] = "before"
            faults.append(f)
    ad, inv = "WX1234G567", "SA2345G678"
    for _ in range(r.choice((0, 0, 2, 5))):  # another controller writes through the same dongle
        reg, val = r.choice(regs[:6]), r.randrange(65536)
        x = r.random()
        if x < 0.7:
            raw, st = wire.write_response(ad, inv, 0x11, reg, val), [[0x11, "HR", reg, val]]
        elif x < 0.85:
            raw, st = wire.error_response(ad, inv, 0x11, 6, reg, val), []
        else:
            raw, st = wire.write_response(ad, inv, 0x11, 0, val), []
        faults.append({"at": round(r.uniform(0.1, 8), 3), "act": "push", "raw": raw.hex(), "set": st})
    caps = r.random() < 0.6
    cfg = {"client": {**client_cfg(r), "tx_message_wait": r.choice((0.0, 0.05, 0.25))}, **net_cfg(r)}
    halting(r, cfg, faults, longest=0.4)
    plan = {"cfg": cfg, "caps": caps, "dongles": [{"topo": topo, "tseed": r.randrange(1 << 30), "lat": [0.004, lat]}], "actors": actors, "faults": faults,
            "feed": [], "horizon": 600, "settle": 5.0}
    if caps and topo["model"] in ("AC", "HYBRID_GEN1") and r.random() < 0.15:
        plan["caps_over"] = {"inverter_address": 0x31}  # a saved hint from before the address change
    return plan


def target(w):
    return w.plan.get("caps_over", {}).get("inverter_address", 0x11)


def shown(w, reg):
    c = w.clients[0].plant.register_caches.get(target(w))
    if c is not None:
        for k, x in dict.items(c):
            if type(k).__name__ == "HR" and k.index == reg:
                return x
    return None


def build(plan):
    w = guard.build(plan)

    def mon(kind, x):
        for s in w.extra["shadow"]:
            s.dirty = True
        if kind == "end" and x["op"]["op"] in ("write", "cmd"):
            x["shown"] = {q["reg"]: shown(w, q["reg"]) for q in (x["op"].get("reqs") or [x["op"]])}
            inv = w.clients[0].plant.inverter
            for reg, have in x["shown"].items():
                name = NAMED.get(reg) or ON_OFF.get(reg)
                if name and have is not None:
                    want = bool(have) if reg in ON_OFF else have
                    if getattr(inv, name) != want:
                        w.violate("view-differs", reg=reg, shows=getattr(inv, name), stored=have)
    w.monitors.append(mon)
    return w


def check(w):
    v = guard.differences(w, lambda d: "write" in d["decisions"] or not d["decisions"] or (d["field"] == "registers" and d["addr"] in (0x11, 0x31) and
                                                                                         d["first"][0][0] == "HR"))
    acks = sorted([x for x in w.rx if x.td is not None and x.f is not None and x.f.kind == "write" and not x.f.error], key=lambda x: x.seqd)
    reads = [x for x in w.rx if x.td is not None and x.f is not None and x.f.kind == "read" and not x.f.error and x.f.func == 3 and x.f.addr == target(w)]
    good = bad = 0
    for o in w.ops:
        if o["op"]["op"] not in ("write", "cmd") or o["t1"] is None:
            continue
        if o["out"] != "ok" or o["op"].get("dry_run"):
            bad += 1
            continue
        for q in o["op"].get("reqs") or [o["op"]]:
            mine = [x for x in acks if x.f.base == q["reg"] and o["s0"] < x.seqd < o["s1"]]
            if not mine:
                v.append({"what": "success-without-acknowledgement", "op": o["op"], "reg": q["reg"], "t": [o["t0"], o["t1"]]})
                continue
            good += 1
            ok = {x.f.value for x in mine} | {x.f.values[q["reg"] - x.f.base] for x in reads
                                             if x.f.base <= q["reg"] < x.f.base + x.f.count and mine[0].seqd < x.seqd < o["s1"]}
            if "shown" in o and o["shown"][q["reg"]] not in ok:
                v.append({"what": "acknowledged-value-not-shown", "op": o["op"], "reg": q["reg"], "shown": o["shown"][q["reg"]], "acknowledged": sorted(ok)})
    w.extra["mix"] = (good, bad)
    return v


def nontrivial(w):
    return all(w.extra.get("mix", (0, 0)))


def probes(w):
    d = guard.decisions(w)
    d["acknowledged"], d["unacknowledged"] = w.extra.get("mix", (0, 0))
    return d
