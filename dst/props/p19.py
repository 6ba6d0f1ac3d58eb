"""Failed or mismatched detection leaves a clean state."""
from ..gen import ERRNOS
from ..topo import Topology
from ..world import World, caps_dict
from .p18 import POOL, addresses, compare, devices, norm, probe_keys

RUNS = {"quick": 2000, "thorough": 30000}
SKIP = ("arm_firmware_version",)


def mutate_hint(r, c):
    """A hint that may differ from the truth."""
    c = {k: (list(v) if isinstance(v, list) else v) for k, v in c.items()}
    for _ in range(r.choice((0, 1, 1, 2))):
        x = r.randrange(9)
        if x == 0:
            c["meter_addresses"] = sorted(set(c["meter_addresses"]) ^ {r.randrange(1, 9)})
        elif x == 1 and not c["bcu_stacks"] and "EMS" not in c["device_type"]:
            c["lv_battery_addresses"] = sorted(set(c["lv_battery_addresses"]) ^ {r.randrange(0x32, 0x38)})
        elif x == 2:
            c["lv_bcu_address"] = None if c["lv_bcu_address"] else 0x31
        elif x == 3 and c["bcu_stacks"]:
            o, n = c["bcu_stacks"][-1]
            c["bcu_stacks"][-1] = (o, n + r.choice((-1, 1)))
        elif x == 4 and c["bcu_stacks"]:
            c["bcu_stacks"] = c["bcu_stacks"][:-1] if r.random() < 0.5 else c["bcu_stacks"] + [(len(c["bcu_stacks"]), 2)]
        elif x == 5 and c["hv_bmu_addresses"]:
            c["hv_bmu_addresses"] = sorted(set(c["hv_bmu_addresses"]) ^ {r.randrange(0x50, 0x58)})
        elif x == 6 and c["aio_battery_module_addresses"]:
            c["aio_battery_module_addresses"] = sorted(set(c["aio_battery_module_addresses"]) ^ {r.randrange(0x50, 0x54)})
        elif x == 7:
            c["arm_firmware_version"] = r.choice((None, 1, 612))
        elif x == 8 and r.random() < 0.4:
            c["device_type"] = r.choice(("HYBRID_GEN1", "AC", "EMS", "HYBRID_3PH"))
    return c


def gen(r, i, tier):
    topo = r.choice([t for t in POOL if not any(k.startswith("ghost") or k.startswith("blank") for k in t)])
    seed = r.randrange(1 << 30)
    truth = Topology(topo, seed).expected_caps()
    cfg = {"client": {"tx_message_wait": r.choice((0.0, 0.02, 0.25)), "tx_jitter": r.choice((0.0, 0.1))}, "seg": r.choice(("whole", "random")),
           "coalesce": r.random() < 0.5, "lat": [0.001, r.choice((0.003, 0.02))]}
    timeout, probe_timeout = r.choice((0.3, 1.0)), 0.25
    det = {"op": "call", "name": "detect", "timeout": timeout, "retries": r.randrange(3), "probe_timeout": probe_timeout, "probe_retries": r.randrange(2)}
    hinted = r.random() < 0.45
    if hinted:
        det["hint"] = mutate_hint(r, truth)
    before = r.random()
    ops = [{"op": "connect"}]
    if before < 0.3:
        ops.append({"op": "call", "name": "setcaps", "caps": truth})
    elif before < 0.4:
        ops.append({"op": "call", "name": "setcaps", "caps": mutate_hint(r, truth)})
    elif before < 0.6:
        ops += [dict(det, hint=None)]
    ops += [det, {"op": "sleep", "t": 0.5}, {"op": "call", "name": "use"}, {"op": "heal"}, {"op": "connect"},
            {"op": "call", "name": "detect", "timeout": 2.0, "retries": 1, "probe_timeout": 0.5, "probe_retries": 1, "final": True}]
    faults = []
    mode = r.random()
    n = r.choice((r.randrange(3), r.randrange(12), r.randrange(45)))
    if mode < 0.5:  # the link drops at some request, or at some instant
        f = {"act": r.choice(("eof", "rst", "etimedout", "partial_eof")), "errno": r.choice(ERRNOS), "frac": round(r.random(), 2)}
        f["delay"] = round(r.choice((0, 0, 0.02, 0.3, 0.6)) * r.random(), 4)
        if r.random() < 0.4:
            f["when"] = "before"
        if r.random() < 0.6:
            f["req"] = n
        elif r.random() < 0.6:
            f["key"] = ":".join(map(str, r.choice(probe_keys())))
            f["nth"] = r.randrange(2)
        else:
            if f["act"] == "partial_eof":
                f["act"] = "eof"
            f["at"] = round(r.uniform(0, 12), 3)
        faults.append(f)
    elif mode < 0.75:  # the inverter never answers its identity read
        how = r.choice(("drop", "crc", "err", "null", "late"))
        faults.append({"key": "17:3:0:60", "nth": "*", "act": how, "s": 50.0})
        if r.random() < 0.5:
            faults = [{"at": round(r.choice((0.001, 0.02, 3.0)), 3), "act": r.choice(("silent", "stall"))}]
    for _ in range(r.choice((0, 5, 10))):
        faults.append({"req": r.randrange(50), "act": r.choice(("unsol", "hb", "dup"))})
    actors = [{"ops": ops}]
    y = r.random()
    if y < 0.12:  # somebody closes or reconnects meanwhile
        actors.append({"start": round(r.uniform(0.005, 5), 3), "ops": [{"op": r.choice(("close", "close", "connect"))}]})
    elif y < 0.2:
        det["cancel_after"] = round(r.uniform(0.01, 4), 3)
    return {"cfg": cfg, "dongles": [{"topo": topo, "tseed": seed, "lat": [0.004, r.choice((0.01, 0.1))], "absent_bank": r.choice(("error", "silent"))}],
            "actors": actors, "faults": faults, "horizon": 4000}


def build(plan):
    w = World(plan)
    w.extra.update(dets=[], uses=[])

    async def setcaps(w, cl, op, rec):
        w.clients[cl].plant.capabilities = w.mk_caps(op["caps"])

    async def use(w, cl, op, rec):
        """The link must still carry a request after a mismatch."""
        from givenergy_modbus.pdu import ReadHoldingRegistersRequest
        c = w.clients[cl]
        try:
            await c.send_request_and_await_response(ReadHoldingRegistersRequest(base_register=0, register_count=60, device_address=0x11),
                                                    timeout=2.0, retries=1)
            out = "ok"
        except Exception as e:  # noqa: BLE001
            out = type(e).__name__
        w.extra["uses"].append((w.now, out))

    async def detect(w, cl, op, rec):
        c = w.clients[cl]
        prior = w.mk_caps(op["hint"]) if op.get("hint") else None
        prev = c.plant.capabilities
        conn = [i for i, ci in w.conn_info.items() if ci["closed"][0] is None]
        p = {"t0": w.now, "s0": w.tick(), "op": op, "out": "cancelled", "rec": rec["id"], "conn": conn, "connected": c.connected, "fired": sum(w.fired.values())}
        w.extra["dets"].append(p)
        try:
            r = await c.detect(timeout=op["timeout"], retries=op["retries"], probe_timeout=op["probe_timeout"],
                               probe_retries=op["probe_retries"], prior=prior)
            p["out"], p["got"], p["installed"] = "ok", caps_dict(r), r is c.plant.capabilities
        except Exception as e:  # noqa: BLE001
            p["out"], p["is"] = type(e).__name__, [k.__name__ for k in type(e).__mro__]
            if hasattr(e, "actual"):
                p["actual"], p["prior_same"] = caps_dict(e.actual), e.prior is prior
        finally:
            now = c.plant.capabilities
            p.update(t1=w.now, s1=w.tick(), none_after=now is None, same_after=now is prev, connected_after=c.connected,
                     open_after=[i for i, ci in w.conn_info.items() if ci["closed"][0] is None])
    w.extra["calls"] = {"setcaps": setcaps, "use": use, "detect": detect}
    return w


def check(w):
    v = []
    tp = Topology(w.plan["dongles"][0]["topo"], w.plan["dongles"][0]["tseed"])
    truth = norm(tp.expected_caps())
    others = [r for r in w.ops if r["actor"] != 0 and r["op"]["op"] in ("close", "connect")]
    for p in w.extra["dets"]:
        rec = w.ops[p["rec"]]
        info = {"t": [p["t0"], p.get("t1")], "op": p["op"], "out": p["out"]}
        if not p["connected"] and rec["t1"] is not None:
            continue  # never (or no longer) connected when called: nothing to detect over
        if rec["t1"] is None:
            v.append({"what": "detection-never-ended", **info})
            continue
        if p["out"] == "cancelled":
            if not rec.get("cancelled_by_plan") and rec["out"] != "cancelled-by-plan" and not others:
                v.append({"what": "cancelled-without-the-caller-asking", **info})
            elif not p["same_after"] and not p["none_after"]:
                v.append({"what": "cancelled-detection-installed-topology", **info})
            continue
        disturbed = [r for r in others if r["t0"] <= p["t1"] and (r["t1"] is None or r["t1"] >= p["t0"])]
        drops = [c for i, c in w.conn_info.items() if i in p["conn"] and c["lost_at"] is not None and c["lost_at"] <= p["t1"]]
        # half an answer followed, later than its timeout, by the drop is silence first
        silent = any(k in w.fired for k in ("at:silent", "at:stall")) or \
            any(f["act"] == "partial_eof" and f["delay"] > 0.1 for f in w.plan["faults"])
        hint = norm(p["op"].get("hint"))
        want = truth if hint is None else norm(tp.hinted_caps(hint))
        if p["out"] == "ok":
            if not p["installed"]:
                v.append({"what": "result-not-installed", **info})
            got = norm(p["got"])
            if hint is not None and compare(got, hint, SKIP):
                v.append({"what": "accepted-result-differs-from-hint", "fields": compare(got, hint, SKIP), **info})
            elif silent or disturbed:  # silence, or the caller closing meanwhile, looks like absence
                if addresses(got) - addresses(truth):
                    v.append({"what": "device-invented", **info})
            elif compare(got, want or {}):
                df = compare(got, want or {})
                v.append({"what": "smaller-plant-reported" if drops else "wrong-plant-reported", "fields": df,
                          "got": {k: got.get(k) for k in df}, "want": {k: (want or {}).get(k) for k in df}, **info})
        elif p["out"] == "PlantTopologyMismatch":
            if hint is None or not p["prior_same"]:
                v.append({"what": "mismatch-without-its-hint", **info})
            elif not p["none_after"]:
                v.append({"what": "mismatch-kept-topology", **info})
            elif not drops and not disturbed and not silent:
                if not p["connected_after"]:
                    v.append({"what": "mismatch-dropped-connection", **info})
                if want is None:
                    if p["actual"]["device_type"] != truth["device_type"]:
                        v.append({"what": "mismatch-reality-wrong", "actual": p["actual"], **info})
                elif compare(norm(p["actual"]), want):
                    v.append({"what": "mismatch-reality-wrong", "fields": compare(norm(p["actual"]), want), "actual": p["actual"], **info})
                elif not compare(want, hint, SKIP):
                    v.append({"what": "mismatch-although-equal", **info})
            elif drops and not compare(want or {}, hint, SKIP):
                v.append({"what": "link-loss-reported-as-mismatch", **info})
        elif "TimeoutError" in p["is"] or "CommunicationError" in p["is"]:
            if not p["same_after"] and not p["none_after"]:
                v.append({"what": "failed-detection-installed-topology", **info})
            elif (p["connected_after"] or set(p["open_after"]) & set(p["conn"])) and not disturbed:
                v.append({"what": "failed-detection-left-connection", **info})
            elif not drops and not disturbed and not silent and not any(k in w.fired for k in ("drop", "crc", "err", "null", "late", "partial_eof")):
                v.append({"what": "detection-failed", **info})
            elif p["op"].get("final") and not disturbed:
                v.append({"what": "no-recovery-after-failed-detection", **info})
        else:
            v.append({"what": "unexpected-exception", **info})
    if w.extra["uses"] and len(w.extra["dets"]) >= 1:
        t, out = w.extra["uses"][0]
        before = [p for p in w.extra["dets"] if p.get("t1") is not None and p["t1"] <= t]
        last = before[-1] if before else None
        lost = [c for c in w.conn_info.values() if c["lost_at"] is not None and c["lost_at"] <= t + 10]
        if last and last["out"] == "PlantTopologyMismatch" and out != "ok" and not lost and not others and \
                not any(k in w.fired for k in ("drop", "crc", "err", "null", "late", "at:silent", "at:stall", "dup")):
            v.append({"what": "connection-unusable-after-mismatch", "out": out, "t": t})
    return v


def probes(w):
    out = {}
    for p in w.extra["dets"]:
        k = p["out"] + ("+hint" if p["op"].get("hint") else "")
        out[k] = out.get(k, 0) + 1
    return out


_ = devices
