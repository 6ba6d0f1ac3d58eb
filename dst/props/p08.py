"""Only permitted writes ever reach the wire."""
from ..gen import halting, client_cfg, conn_fault, net_cfg, read_op, req_faults
from ..perms import AC_SET, EMS_SET, INSTALLER, SINGLE, THREE, allowed, permitted
from ..topo import TOPO_POOL, MODELS
from ..world import World

RUNS = {"quick": 3000, "thorough": 40000}
RULE = "a run counts when at least one batch was refused and one was sent; runs are the same when their ordered event kinds coincide"
ALL = sorted(SINGLE | THREE | EMS_SET | AC_SET | INSTALLER)
ODD = sorted({0, 1, 21, 28, 47, 97, 104, 172, 199, 248, 251, 299, 318, 319, 320, 331, 352, 479, 554, 573, 1005, 1079, 1108, 1110, 1117, 1124,
              2036, 2041, 2043, 2072, 5010, 5014, 20004, 65535} - set(ALL)) + [104, 331, 5010, 1108, 318]
POOL = TOPO_POOL + [{"model": m, "batteries": []} for m in MODELS]


def gen(r, i, tier):
    topo = r.choice(POOL)
    cfg = {"client": client_cfg(r), **net_cfg(r)}
    cfg["client"]["tx_message_wait"] = r.choice((0.0, 0.02, 0.1))
    val = r.randrange(1, 5000)
    main = [{"op": "connect"}]
    det = r.random() < 0.85
    d = {"op": "detect", "timeout": 0.5, "retries": 2, "probe_timeout": 0.3, "probe_retries": 1}
    if det:
        main.append(d)
    actors = [{"ops": main}]
    perm = sorted(permitted(topo["model"] if det else None))

    def reg(r, bad):
        return r.choice((r.choice(ALL), r.choice(ODD), r.choice(ALL))) if r.random() < bad else r.choice(perm)

    def batch(r, k, bad):
        nonlocal val
        reqs, seen = [], set()
        for _ in range(r.choice((1, 1, 2, 3, 6))):
            if r.random() < 0.06:
                reqs.append(read_op((0x11, 3, 60, 1 + len(reqs))))
                continue
            ins = (k == "inst" and r.random() < 0.6) or r.random() < 0.1
            g = reg(r, bad) if not ins else (r.choice(sorted(INSTALLER)) if r.random() > bad else reg(r, 1))
            if g in seen:
                continue
            seen.add(g)
            val += 1
            v = val if r.random() > 0.06 else r.choice((-1, 65536, 70000, 0, 65535) if bad else (0, 65535))
            reqs.append({"op": "write", "reg": g, "val": v, **({"installer": True} if ins else {})})
        return reqs or [{"op": "write", "reg": perm[0], "val": 1}]
    for a in range(r.randrange(1, 4)):
        ops = []
        for _ in range(r.randrange(2, 7)):
            k = r.choice(("cmd", "cmd", "inst"))
            reqs = batch(r, k, r.choice((0.0, 0.0, 0.3, 1.0)))
            o = {"op": "call", "name": "cmd", "kind": k, "reqs": reqs, "timeout": 0.4, "retries": r.choice((0, 0, 1)), "retry_delay": 0.1}
            x = r.random()
            if x < 0.3:
                ops.append({**o, "dry": True})
            elif x < 0.6:
                ops += [{**o, "dry": True, "pair": 1}, o]
            else:
                ops.append(o)
            if r.random() < 0.05:
                ops[-1]["cancel_after"] = round(r.random(), 3)
            if r.random() < 0.1:
                ops.append({"op": "sleep", "t": round(r.random() * 2, 3)})
        if a == 0 and r.random() < 0.8:
            main += ops
            if r.random() < 0.15:
                main.append(r.choice((d, {"op": "connect"}, {"op": "close"}, {**d, "prior": {
                    "device_type": r.choice(("HYBRID_GEN1", "AC", "EMS", "HYBRID_3PH")), "inverter_address": 17, "meter_addresses": [], "lv_battery_addresses": [],
                    "bcu_stacks": [], "aio_battery_module_addresses": [], "hv_bmu_addresses": [], "lv_bcu_address": None, "arm_firmware_version": 1}})))
                main += [{"op": "call", "name": "cmd", "kind": "cmd", "reqs": batch(r, "cmd", 0.5), "timeout": 0.4, "retries": 0, "retry_delay": 0.1}]
        else:
            actors.append({"start": round(r.random() * 6 if r.random() < 0.2 or not det else 15 + 5 * r.random(), 3), "ops": ops})
    faults = []
    if r.random() < 0.4:
        faults = req_faults(r, 120, ["drop", "late", "err", "dup", "hb", "null"], r.choice((0.05, 0.3)))
    if r.random() < 0.15:
        faults.append(conn_fault(r, r.uniform(0, 10), ("eof", "rst", "stall")))
    halting(r, cfg, faults)
    return {"cfg": cfg, "dongles": [{"topo": topo}], "actors": actors, "faults": faults, "horizon": 4000}


def build(plan):
    w = World(plan)

    async def cmd(w, cl, op, rec):
        c = w.clients[cl]
        caps = c.plant.capabilities
        rec["model"] = getattr(caps.device_type, "name", "?") if caps is not None else None
        rec["seq"] = w.tick()
        reqs = [w.mk_request(o) for o in op["reqs"]]
        fn = c.one_shot_command if op["kind"] == "cmd" else c.installer_command
        kw = {x: op[x] for x in ("timeout", "retries", "retry_delay")}
        if op.get("dry"):
            kw["dry_run"] = True
        return await fn(reqs, **kw)
    w.extra["calls"] = {"cmd": cmd}
    return w


REFUSED = ("InvalidPduState", "ValueError")


def check(w):
    v = []
    by = {}
    for r in w.ops:
        o = r["op"]
        if o["op"] != "call" or "seq" not in r:
            continue
        ok = [allowed(r["model"], o["kind"], q["reg"], q["val"], q.get("installer", False)) for q in o["reqs"] if q["op"] == "write"]
        r["permitted"] = all(ok)
        if all(ok) and r["out"] in REFUSED:
            v.append({"what": "permitted-batch-refused", "model": r["model"], "op": o, "exc": repr(r.get("exc"))})
        if not all(ok) and (r["out"] not in REFUSED or r["t1"] > r["t0"]):
            v.append({"what": "forbidden-batch-not-refused", "model": r["model"], "op": o, "out": r["out"]})
        if o.get("dry") and all(ok) and (r["out"] != "ok" or r["t1"] > r["t0"]):
            v.append({"what": "dry-run-outcome", "op": o, "out": r["out"]})
        for q in o["reqs"]:
            if q["op"] == "write":
                by.setdefault((q["reg"], q["val"]), []).append(r)
    for x in w.tx:
        f = x.f
        if f is None or f.kind != "write":
            continue
        c = [r for r in by.get((f.base, f.value), ()) if r["seq"] <= x.seq and r["permitted"] and not r["op"].get("dry")]
        if not c:
            v.append({"what": "unpermitted-write-on-wire", "frame": repr(f), "t": x.t, "calls": [(r["model"], r["op"]) for r in by.get((f.base, f.value), ())][:2]})
            break
        if f.addr != 0x11:
            v.append({"what": "write-to-wrong-device", "frame": repr(f)})
            break
    return v


def nontrivial(w):
    return any(r["out"] in REFUSED for r in w.ops) and any(x.f is not None and x.f.kind == "write" for x in w.tx)


def probes(w):
    out = {}
    for r in w.ops:
        if r["op"]["op"] == "call":
            k = f"{r['op']['kind']}{':dry' if r['op'].get('dry') else ''}:{r['out']}"
            out[k] = out.get(k, 0) + 1
            out["model:%s" % r.get("model")] = out.get("model:%s" % r.get("model"), 0) + 1
    return out
