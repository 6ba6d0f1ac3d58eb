"""Polling requests exactly the banks that are due."""
from .. import wire
from ..feed import expand
from ..refplant import RefPlant, Shadow
from ..topo import TOPO_POOL, Topology, config_banks, refresh_banks
from ..world import World, caps_dict

RUNS = {"quick": 1600, "thorough": 20000}
CODE = {"IR": 4, "HR": 3}


def full_caps(plan):
    sp = plan["dongles"][0]
    return Topology(sp["topo"], sp["tseed"]).expected_caps()


def gen(r, i, tier):
    topo = dict(r.choice(TOPO_POOL))
    topo.pop("ghosts", None)
    spec = {"topo": topo, "tseed": r.randrange(1 << 30), "lat": [0.002, r.choice((0.004, 0.03))], "absent_bank": r.choice(("error", "silent"))}
    caps = Topology(topo, spec["tseed"]).expected_caps()
    banks = refresh_banks(caps)
    devs = sorted({b[0] for b in banks if b[0] != 0x11})
    ops = [{"op": "connect"}]
    if r.random() < 0.5:
        ops.append({"op": "call", "name": "setcaps"})
    else:
        ops.append({"op": "call", "name": "detect", "probe_timeout": 0.2, "probe_retries": 0})
    feed, faults, t = [], [], 12.0
    n = r.randrange(3, 9)
    ages = (None, None, 0.5, 5, 30, 30, 100, 100, 600, 4000)
    base_age = r.choice(ages)
    tl = []
    for _ in range(n):
        x = r.random()
        if x < 0.62:
            tl.append({"op": "call", "name": "poll", "kind": r.choice(("refresh", "refresh", "refresh", "ir0", "config", "plant", "plant0")),
                       "max_age": base_age if r.random() < 0.6 else r.choice(ages), "timeout": 1.0, "retries": r.randrange(2)})
        elif x < 0.70 and devs:
            tl.append({"op": "fault", "act": "gone", "addr": r.choice(devs)})
        elif x < 0.76 and devs:
            tl.append({"op": "fault", "act": "back", "addr": r.choice(devs)})
        elif x < 0.84:
            tl.append({"op": "call", "name": "detect", "probe_timeout": 0.2, "probe_retries": 0, "hinted": r.random() < 0.4})
            if r.random() < 0.6:
                tl += [{"op": "fault", "act": "back", "addr": d} for d in devs]
            if r.random() < 0.8:
                tl.append({"op": "call", "name": "setcaps"})
        elif x < 0.9:
            b = r.choice(banks)
            tl.append({"op": "call", "name": "invalidate", "key": [b[0], "IR", b[2], b[3]]})
        else:
            tl.append({"op": "skew", "s": r.choice((-3600, -86400, -50, 10, 200, 3600))})
        tl.append({"op": "sleep", "t": round(r.choice((0.2, 2, 10, 50, 200)) * r.uniform(0.5, 1.5), 4)})
    if devs and r.random() < 0.25:  # a device goes, is missed by one detection, and is found again by the next
        d = r.choice([0xA0, *devs] if caps["bcu_stacks"] else devs)
        det = lambda h: {"op": "call", "name": "detect", "probe_timeout": 0.2, "probe_retries": 0, "hinted": h}  # noqa: E731
        tl += [{"op": "fault", "act": "gone", "addr": d}, det(r.random() < 0.3), {"op": "fault", "act": "back", "addr": d}, det(r.random() < 0.5),
               {"op": "call", "name": "poll", "kind": "refresh", "max_age": None, "timeout": 1.0, "retries": 0}]
    ops += tl
    end = 30 + sum(o.get("t", 0) for o in ops) * 1.2
    same = r.random() < 0.5
    for j in range(r.choice((0, 4, 12))):
        t = r.uniform(1, end)
        a, f, b, c = r.choice(banks)
        it = {"t": round(t, 3), "a": a, "f": f, "b": b, "n": c, "v": "same" if same else "data"}
        if 0x32 <= a <= 0x37:
            it = {"t": it["t"], "a": a, "m": []}
        elif r.random() < 0.3:
            it["b"], it["n"] = r.choice(((b, c - 1), (b + 1, c - 1), (b, 30)))
        if r.random() < 0.2:
            it["wrap"] = r.choice(("crc", "error", "zero", "null"))
        feed.append(it)
    feed.sort(key=lambda q: q["t"])
    for j, it in enumerate(feed):
        it["id"] = j + 1
    if r.random() < 0.3:
        for _ in range(6):
            faults.append({"req": r.randrange(60), "act": r.choice(("drop", "crc", "err", "late", "zero")), "s": 1.3})
    if r.random() < 0.1:
        faults.append({"at": round(r.uniform(2, end), 2), "act": r.choice(("eof", "rst"))})
    return {"cfg": {"client": {"tx_message_wait": r.choice((0.0, 0.01)), "tx_jitter": 0.0}, "seg": r.choice(("whole", "random")),
                    "lat": [0.001, 0.003]},
            "dongles": [spec], "actors": [{"ops": ops}], "feed": feed, "faults": faults, "horizon": 4 * end + 600}


def detect_marks(caps, gone, prior, blank):
    """What one detection run learns about the banks polls use: {key: True|False}; banks it says nothing about are left out."""
    out = {}
    nm = caps["device_type"]
    hv, ems = bool(caps["bcu_stacks"]), nm.startswith("EMS")
    there = lambda a: a not in gone  # noqa: E731
    meters = range(1, 9) if prior is None else prior["meter_addresses"]
    for m in meters:
        out[m, "IR", 60, 30] = there(m) and m in caps["meter_addresses"]
    is_hv = nm in ("HYBRID_3PH", "AC_3PH", "ALL_IN_ONE", "HYBRID_HV_GEN3", "ALL_IN_ONE_HYBRID")
    if is_hv:
        found = []
        if prior is not None:
            for o, n in caps["bcu_stacks"]:
                if there(0x70 + o):
                    out[0x70 + o, "IR", 60, 60] = True
                    found.append((o, n))
                else:
                    out[0x70 + o, "IR", 60, 60] = None  # only its short range was marked
            mods = caps["aio_battery_module_addresses"] + caps["hv_bmu_addresses"]
        else:
            if there(0xA0):
                for o, n in caps["bcu_stacks"]:
                    out[0x70 + o, "IR", 60, 60] = there(0x70 + o)
                    if there(0x70 + o):
                        found.append((o, n))
            mods = range(0x50, min(0x70, 0x50 + sum(n for _, n in found)))
            if nm == "ALL_IN_ONE":
                mods = range(0x50, 0x50 + min(4, found[0][1])) if found else []
        if found and hv:
            for a in mods:
                out[a, "IR", 60, 60] = there(a) and a in caps["aio_battery_module_addresses"] + caps["hv_bmu_addresses"]
    elif not ems:
        for a in range(0x32, 0x38) if prior is None else prior["lv_battery_addresses"]:
            out[a, "IR", 60, 60] = there(a) and a in caps["lv_battery_addresses"]
        if prior is None or prior["lv_bcu_address"] is not None:
            out[0x31, "IR", 60, 60] = there(0x31) and caps["lv_bcu_address"] == 0x31
    return out


def build(plan):
    plan = dict(plan)
    caps = full_caps(plan)
    plan["faults"] = sorted(plan.get("faults", []) + expand(plan), key=lambda f: f.get("at", 0))
    w = World(plan)
    sh = Shadow(w, 0, RefPlant(caps))
    sh.comparing = False
    w.extra.update(shadow=[sh], marks={}, polls=[], unsure=set())

    async def setcaps(w, cl, op, rec):
        w.clients[cl].plant.capabilities = w.mk_caps(caps)

    async def detect(w, cl, op, rec):
        import asyncio
        c = w.clients[cl]
        if not c.connected:
            await c.connect()
        nf = len(w.fired)
        n0 = sum(w.fired.values())
        gone = set(w.dongles[0].gone)
        prior = w.mk_caps(caps) if op.get("hinted") else None
        await asyncio.sleep(0.05)
        try:
            await c.detect(timeout=1.0, retries=1, probe_timeout=op["probe_timeout"], probe_retries=op["probe_retries"], prior=prior)
        except Exception as e:  # noqa: BLE001
            if type(e).__name__ != "PlantTopologyMismatch":
                w.extra["unsure"] = "all"
                raise
        finally:
            await asyncio.sleep(0.05)
            if n0 != sum(w.fired.values()) or nf != len(w.fired):
                w.extra["unsure"] = "all"  # something else happened on the wire meanwhile
            for k, v in detect_marks(caps, gone, caps if prior is not None else None, ()).items():
                if v is False:
                    sh.ref.regs.pop(k[0], None)
                w.extra["marks"][k] = (v, w.now)

    async def invalidate(w, cl, op, rec):
        k = tuple(op["key"])
        w.clients[cl].plant.invalidate_presence(*k)
        w.extra["marks"].pop(k, None)
        sh.ref.stamps.pop(k, None)
        for n in range(k[2], k[2] + k[3]):
            sh.ref.regs.get(k[0], {}).pop((k[1], n), None)
        if k[0] in sh.ref.packs and k[2:] == (60, 60):
            sh.ref.packs[k[0]].pending = None

    async def poll(w, cl, op, rec):
        import warnings
        c = w.clients[cl]
        lost = not c.connected
        kw = {"timeout": op["timeout"], "retries": op["retries"]}
        w.extra["polls"].append({"t": w.now, "wall": w.wall(), "s0": w.tick(), "stamps": dict(sh.ref.stamps), "marks": dict(w.extra["marks"]),
                                 "op": op, "rec": rec["id"], "caps": caps_dict(c.plant.capabilities), "nocaps": c.plant.capabilities is None, "lost": lost,
                                 "unsure": w.extra["unsure"], "fired": sum(w.fired.values())})
        p = w.extra["polls"][-1]
        try:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                if op["kind"] == "config":
                    await c.load_config(**kw)
                elif op["kind"] == "ir0":
                    await c.refresh(ir0_max_age=op["max_age"], **kw)
                elif p["nocaps"] and op["kind"].startswith("plant"):
                    return
                elif op["kind"] == "plant":
                    await c.refresh_plant(True, **kw)
                elif op["kind"] == "plant0":
                    await c.refresh_plant(False, **kw)
                else:
                    await c.refresh(max_age=op["max_age"], **kw)
        except Exception as e:  # noqa: BLE001
            p["exc"] = type(e).__name__
        finally:
            p["s1"], p["t1"], p["connected"] = w.tick(), w.now, c.connected
            p["quiet"] = p["fired"] == sum(w.fired.values())
    w.extra["calls"] = {"setcaps": setcaps, "detect": detect, "invalidate": invalidate, "poll": poll}
    return w


def check(w):
    out = []
    sh = w.extra["shadow"][0]
    for p in w.extra["polls"]:
        if "s1" not in p or p["unsure"] == "all":
            continue
        op = p["op"]
        sent = {}
        for x in w.tx:
            if p["s0"] < x.seq < p["s1"] and x.f is not None and x.f.kind != "heartbeat":
                sent[x.f.key()] = sent.get(x.f.key(), 0) + 1
        if p["nocaps"]:
            if sent:
                out.append({"what": "polled-without-detection", "t": p["t"], "sent": sorted(sent)})
            continue
        meas, conf = refresh_banks(p["caps"]), config_banks(p["caps"])
        must, may = set(), set()
        fuzzy = {(a, k) for t, a, _d, k in sh.trace if abs(t - p["t"]) < 0.05 for a in [a]}
        fuzzy_addr = {a for a, _ in fuzzy}
        max_age = op["max_age"] if op["kind"] in ("refresh", "ir0") else None
        if op["kind"] in ("config", "plant"):
            must |= set(conf)
        if op["kind"] != "config":
            for b in meas:
                k = (b[0], "IR", b[2], b[3])
                mark = p["marks"].get(k)
                seen = [t for t, _a, d, kk in sh.trace if kk == b and d.startswith("adopted") and mark is not None and mark[1] < t < p["t"]]
                absent = mark is not None and mark[0] is False and not seen
                if mark is not None and mark[0] is None and not seen:
                    may.add(b)
                    continue
                if absent:
                    if b[0] in fuzzy_addr:
                        may.add(b)
                    continue
                st = p["stamps"].get(k)
                age = None if st is None else p["wall"] - st
                if max_age is not None and age is not None and (b[0] in fuzzy_addr or abs(age - max_age) < 0.01 or abs(age) < 1e-6):
                    may.add(b)
                    continue
                if max_age is not None and age is not None and 0 <= age <= max_age:
                    continue
                must.add(b)
        if op["kind"] == "plant" and p.get("exc"):
            must -= set(meas)
            may |= set(meas)  # a failed configuration read ends it before the poll
        extra = sorted(set(sent) - must - may)
        answered = {x.f.key() for x in w.rx if x.td is not None and p["t"] - 0.01 <= x.td <= p["t1"] and x.f is not None and x.f.kind == "read"}
        missing = sorted(must - set(sent) - answered)  # one answered by unsolicited data before its turn need not be sent
        info = {"t": p["t"], "op": op, "exc": p.get("exc")}
        if extra:
            k = (extra[0][0], "IR", extra[0][2], extra[0][3])
            out.append({"what": "polled-bank-not-due", "banks": extra, "age": p["wall"] - p["stamps"][k] if k in p["stamps"] else None,
                        "mark": p["marks"].get(k), **info})
        elif missing and not p["lost"] and p["connected"]:
            k = (missing[0][0], "IR", missing[0][2], missing[0][3])
            out.append({"what": "due-bank-not-polled", "banks": missing, "age": p["wall"] - p["stamps"][k] if k in p["stamps"] else None,
                        "mark": p["marks"].get(k), **info})
        elif p["quiet"] and not w.dongles[0].gone and not p.get("exc") and any(n > 1 for n in sent.values()):
            out.append({"what": "bank-polled-twice", "banks": sorted(k for k, n in sent.items() if n > 1), **info})
    return out


def probes(w):
    n = {"polls": 0, "skipped_fresh": 0, "absent_marks": 0, "negative_ages": 0}
    for p in w.extra["polls"]:
        n["polls"] += 1
        n["absent_marks"] += sum(1 for v in p["marks"].values() if v[0] is False)
        n["negative_ages"] += sum(1 for v in p["stamps"].values() if v > p["wall"])
        if p["op"]["max_age"] is not None:
            n["skipped_fresh"] += sum(1 for v in p["stamps"].values() if 0 <= p["wall"] - v <= p["op"]["max_age"])
    return n


_ = (wire, CODE)
