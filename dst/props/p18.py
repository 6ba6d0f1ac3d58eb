"""Detection reports the plant that is there."""
from ..topo import TOPO_POOL, Topology
from ..world import World, caps_dict

RUNS = {"quick": 2500, "thorough": 30000}
EXTRA = [
    {"model": "HYBRID_GEN1", "batteries": [0x33, 0x36], "meters": [3, 8], "ghosts": [1]},
    {"model": "HYBRID_GEN1", "batteries": [0x32, 0x34], "ghost_packs": [0x33, 0x35]},
    {"model": "HYBRID_GEN2", "batteries": [0x32, 0x33, 0x34, 0x35, 0x36, 0x37], "meters": [1, 2, 3, 4, 5, 6, 7, 8], "lv_bcu": True},
    {"model": "HYBRID_GEN3", "batteries": [], "ghost_packs": [0x32], "blank_lv_bcu": True},
    {"model": "ALL_IN_ONE", "bcus": [6], "meters": [4]},
    {"model": "ALL_IN_ONE", "bcus": [4], "absent_modules": [0x51], "ghost_mods": [0x52]},
    {"model": "ALL_IN_ONE", "bcus": []},
    {"model": "HYBRID_3PH", "bcus": [2, 4, 1], "absent_modules": [0x53]},
    {"model": "HYBRID_3PH", "bcus": [], "meters": [2]},
    {"model": "HYBRID_HV_GEN3", "bcus": [6], "ghost_mods": [0x50, 0x55], "ghosts": [5]},
    {"model": "AC", "batteries": [0x32, 0x33], "blank_lv_bcu": True, "ghosts": [2]},
    {"model": "GATEWAY", "batteries": [0x34], "meters": [1]},
    {"model": "EMS", "meters": [8], "managed": [1, 1, 1]},
    {"model": "POLAR", "batteries": [], "meters": [1]},
    {"model": "AIO_COMMERCIAL", "batteries": [0x32], "lv_bcu": True},
    {"model": "HYBRID_GEN4", "batteries": [0x37], "meters": [7], "ghosts": [6, 8]},
]
POOL = TOPO_POOL + EXTRA


def devices(topo, seed):
    c = Topology(topo, seed).expected_caps()
    out = c["meter_addresses"] + c["lv_battery_addresses"] + [0x70 + o for o, _ in c["bcu_stacks"][-1:]]  # stacks are numbered without gaps
    out += c["aio_battery_module_addresses"] + c["hv_bmu_addresses"]
    return out + ([0x31] if c["lv_bcu_address"] else []) + ([0xA0] if c["bcu_stacks"] else [])


def probe_keys():
    ks = [(0x11, 3, 0, 60), (0xA0, 4, 60, 5), (0x31, 4, 60, 60), (0x11, 4, 2040, 55)]
    ks += [(m, 4, 60, 30) for m in range(1, 9)] + [(b, 4, 60, 60) for b in range(0x32, 0x38)]
    ks += [(b, 4, 60, 60) for b in range(0x50, 0x58)] + [(b, 4, 60, n) for b in (0x70, 0x71, 0x72) for n in (5, 60)]
    return ks


def recorded(hint):
    """The recorded finding F16, replayed in every check: a pack unplugged behind firmware that acknowledges every slot."""
    det = {"op": "call", "name": "detect", "timeout": 2.0, "retries": 1, "probe_timeout": 0.5, "probe_retries": 1}
    return {"cfg": {"client": {"tx_message_wait": 0.0, "tx_jitter": 0.0}}, "faults": [], "horizon": 40000,
            "dongles": [{"topo": {"model": "HYBRID_GEN1", "batteries": [0x32]}, "tseed": 5}],
            "actors": [{"ops": [{"op": "connect"}, det, {"op": "call", "name": "swap", "tseed": 5,
                                                         "topo": {"model": "HYBRID_GEN1", "batteries": [], "ghost_packs": [0x32]}},
                                dict(det, hint="last") if hint else det]}]}


def gen(r, i, tier):
    if i < 2:
        return recorded(i == 1)
    topo = r.choice(POOL)
    seed = r.randrange(1 << 30)
    cfg = {"client": {"tx_message_wait": r.choice((0.0, 0.02, 0.25)), "tx_jitter": r.choice((0.0, 0.1))}, "seg": r.choice(("whole", "random", "bytes")),
           "coalesce": r.random() < 0.5, "lat": [0.001, r.choice((0.003, 0.02))]}
    probe_timeout = r.choice((0.25, 0.5))
    timeout = r.choice((0.5, 2.0))
    retries, probe_retries = r.randrange(4), r.randrange(3)
    faults, ops = [], [{"op": "connect"}]
    first = (topo, seed)
    n = r.choice((1, 1, 2, 3))
    plain = r.random() < 0.4
    for s in range(n):
        if s and r.random() < 0.35:  # another plant behind the same address: replaced hardware
            topo = r.choice([t for t in POOL if t["model"] == topo["model"]] if r.random() < 0.5 else POOL)
            seed = r.randrange(1 << 30)
            ops.append({"op": "call", "name": "swap", "topo": topo, "tseed": seed})
        devs = devices(topo, seed)
        if s and r.random() < 0.7:
            ops += [{"op": "fault", "act": "gone", "addr": a} for a in devs if r.random() < 0.35]
        if s and r.random() < 0.4:
            ops += [{"op": "fault", "act": "back", "addr": a} for a in devs if r.random() < 0.6]
        if r.random() < 0.15:
            ops.append({"op": "close"})
            ops.append({"op": "connect"})
        det = {"op": "call", "name": "detect", "timeout": timeout, "retries": retries, "probe_timeout": probe_timeout, "probe_retries": probe_retries}
        if r.random() < 0.3:
            det["hint"] = r.choice(("last", "truth"))
        ops.append(det)
        if r.random() < 0.5:
            ops.append({"op": "call", "name": "poll"})
        ops.append({"op": "sleep", "t": r.choice((0.1, 5, 200, 290, 400, 5000))})
    if not plain:
        p = r.choice((0.1, 0.4, 1.0))
        errs = r.random() < 0.5  # not together with duplication: every copy of an error answer consumes an attempt
        for k in probe_keys():
            known = k[0] in (0x11, 0x32)
            budget = retries if known else probe_retries
            if budget and r.random() < p:
                key = ":".join(map(str, k))
                for nth in range(r.randrange(1, budget + 1)):
                    act = r.choice(("drop", "drop", "crc", "null", "err" if errs else "drop", "late", "flip"))
                    faults.append({"key": key, "nth": nth, "act": act, "s": round((timeout if known else probe_timeout) * r.choice((1.2, 2.5)), 3)})
        for q in range(60):
            if r.random() < 0.2:
                faults.append({"req": q, "act": r.choice(("unsol", "unsol", "hb", "hb" if errs else "dup", "lan"))})
        for _ in range(r.choice((0, 3))):
            faults.append({"at": round(r.uniform(0.1, 10), 3), "act": "unsol"})
    return {"cfg": cfg, "dongles": [{"topo": first[0], "tseed": first[1], "lat": [0.004, r.choice((0.01, 0.1))],
                                     "absent_bank": r.choice(("error", "silent"))}],
            "actors": [{"ops": ops}] + other(r, topo), "faults": faults, "horizon": 40000}


def other(r, topo):
    """Sometimes another caller uses the link meanwhile."""
    if r.random() < 0.7 or topo["model"].startswith("EMS"):
        return []
    return [{"start": 0.2, "ops": [x for k in range(r.randrange(1, 30)) for x in
                                   ({"op": "read", "addr": 0x11, "func": r.choice((3, 4)), "base": 40 + k, "count": 3, "timeout": 1.0, "retries": 1},
                                    {"op": "sleep", "t": round(r.random(), 3)})]}]


def build(plan):
    w = World(plan)
    w.extra["dets"] = []

    async def swap(w, cl, op, rec):
        d = w.dongles[0]
        d.topo = Topology(op["topo"], op["tseed"])
        d.gone = set()

    async def poll(w, cl, op, rec):
        c = w.clients[cl]
        if c.plant.capabilities is not None and c.connected:
            try:
                await c.refresh(timeout=1.0, retries=0)
            except Exception:  # noqa: BLE001
                pass

    async def detect(w, cl, op, rec):
        c = w.clients[cl]
        if not c.connected:
            await c.connect()
        d = w.dongles[0]
        gone = set(d.gone)
        prior = None
        if op.get("hint") == "truth":
            prior = w.mk_caps(d.topo.expected_caps(gone))
        elif op.get("hint") == "last":
            prior = c.plant.capabilities
        had = {a for a, x in c.plant.register_caches.items() if any(dict.values(x))}
        p = {"t0": w.now, "s0": w.tick(), "want": d.topo.expected_caps(gone), "prior": caps_dict(prior), "op": op, "out": None,
             "had": had, "hinted": d.topo.hinted_caps(caps_dict(prior), gone) if prior is not None else None}
        w.extra["dets"].append(p)
        try:
            r = await c.detect(timeout=op["timeout"], retries=op["retries"], probe_timeout=op["probe_timeout"],
                               probe_retries=op["probe_retries"], prior=prior)
            p["out"], p["got"] = "ok", caps_dict(r)
            p["installed"] = r is c.plant.capabilities
        except Exception as e:  # noqa: BLE001
            p["out"] = type(e).__name__
            p["mismatch"] = caps_dict(getattr(e, "actual", None)) if hasattr(e, "actual") else None
        p["t1"], p["s1"] = w.now, w.tick()
    w.extra["calls"] = {"swap": swap, "poll": poll, "detect": detect}
    return w


def norm(c):
    if c is None:
        return None
    c = dict(c)
    c["bcu_stacks"] = [tuple(x) for x in c["bcu_stacks"]]
    c.pop("_", None)
    return c


def compare(a, b, skip=()):
    return sorted(k for k in set(a) | set(b) if k not in skip and a.get(k) != b.get(k))


def addresses(c):
    return set(c["meter_addresses"]) | set(c["lv_battery_addresses"]) | {0x70 + o for o, _ in c["bcu_stacks"]} | \
        set(c["aio_battery_module_addresses"]) | set(c["hv_bmu_addresses"]) | ({0x31} if c["lv_bcu_address"] is not None else set())


def classify(w, p, got, want):
    """Names the one recorded finding: a device of an earlier session whose slot now answers all zeros is still reported."""
    ghosts = addresses(got) - addresses(want)
    seen = [x for x in w.rx if x.f is not None and x.f.kind == "read" and not x.f.error and x.td is not None and p["t0"] <= x.td <= p["t1"]]
    blank = {x.f.addr for x in seen} - {x.f.addr for x in seen if any(x.f.values)}
    rest = dict(got)
    for k in ("meter_addresses", "lv_battery_addresses", "aio_battery_module_addresses", "hv_bmu_addresses"):
        rest[k] = [a for a in got[k] if a not in ghosts]
    if 0x31 in ghosts:
        rest["lv_bcu_address"] = None
    if ghosts and ghosts <= blank & p["had"] and not compare(rest, want):
        return "stale-data-behind-blank-answers"
    return "result"


def check(w):
    v = []
    for p in w.extra["dets"]:
        if p["out"] is None:
            v.append({"what": "detection-never-ended", "t0": p["t0"]})
            continue
        info = {"t": p["t0"], "op": p["op"]}
        want = norm(p["want"])
        if p["prior"] is not None:
            want = norm(p["hinted"])
            match = want is not None and not compare(want, norm(p["prior"]), ("arm_firmware_version",))
            if not match:
                if p["out"] != "PlantTopologyMismatch":
                    kind = "result"
                    if p["out"] == "ok" and want is not None:
                        kind = classify(w, p, norm(p["got"]), want)
                    v.append({"what": "mismatch-not-raised", "kind": kind, "out": p["out"], "got": p.get("got"), "prior": p["prior"], "want": want, **info})
                continue
        if p["out"] != "ok":
            v.append({"what": "detection-failed", "out": p["out"], "actual": p.get("mismatch"), "want": want, "hinted": p["prior"] is not None, **info})
            continue
        got = norm(p["got"])
        df = compare(got, want)
        if df or not p["installed"]:
            kind = classify(w, p, got, want)
            v.append({"what": "detected-topology-differs", "kind": kind, "fields": df, "got": {k: got.get(k) for k in df}, "want": {k: want.get(k) for k in df}, **info})
    return v


def probes(w):
    out = {}
    for p in w.extra["dets"]:
        out[str(p["out"])] = out.get(str(p["out"]), 0) + 1
        out["hinted" if p["prior"] is not None else "cold"] = out.get("hinted" if p["prior"] is not None else "cold", 0) + 1
        out["with_stale_data"] = out.get("with_stale_data", 0) + bool(p["had"])
    return out
