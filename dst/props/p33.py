"""A setting takes effect exactly as stated, is shown back, and a wrong one never leaves."""
import datetime
import warnings

from .. import intents as I
from ..gen import client_cfg, conn_fault, halting, net_cfg, req_faults
from ..perms import INSTALLER
from ..topo import MODELS, THREE_PHASE, TOPO_POOL, EMS, pub_model
from ..world import World

RUNS = {"quick": 1200, "thorough": 16000}
RULE = ("when a setting was reported done the simulated device held exactly the registers the setting stands for and no write beyond stated settings had reached it, "
        "after re-reading the configuration the typed view showed the device's values, and settings with wrong arguments or not for the model were refused unsent")
REAL = "client, settings helpers and view mixins, plant, views, asyncio"
STUB = "sockets, clocks, the dongles and their plants"
ASSUME = "an acknowledgement carries only register and value, so one of an earlier, given-up write of the same value is indistinguishable from the awaited one"
POOL = TOPO_POOL + [{"model": m} for m in MODELS]


def gen(r, i, tier):
    topo = dict(r.choice(POOL))
    model, fw = pub_model(topo["model"]), MODELS[topo["model"]][1]
    lay = I.layout(model, fw)
    cfg = {"client": client_cfg(r), **net_cfg(r)}
    cfg["client"]["tx_message_wait"] = r.choice((0.0, 0.0, 0.02, 0.1))
    det = {"op": "detect", "timeout": 0.5, "retries": 2, "probe_timeout": 0.3, "probe_retries": 1}
    main = [{"op": "connect"}, det]
    if r.random() < 0.7:
        main.append({"op": "load_config", "timeout": 1.0, "retries": 2})

    last = []

    def setting():
        if last and r.random() < 0.25:  # the same setting again, to another value
            o = dict(last[-1])
            o["a"], o["kw"] = I.args(r, o["on"], o["fn"], o.get("sl") or ("ems" if model in EMS else lay), r.random() < 0.1)
            return o
        last.append(fresh())
        return last[-1]

    def fresh():
        x = r.random()
        bad = r.random() < 0.15
        sl = None
        if x < 0.55:
            if model in EMS:
                t, fn = "ems", r.choice(I.VIEW_EMS)
            else:
                t = "inv"
                fn = r.choice(r.choice((I.VIEW_ALL, I.VIEW_SLOTS, I.VIEW_3PH if model in THREE_PHASE else I.VIEW_SLOTS)))
        elif x < 0.8:
            t = "mod"
            fn = r.choice(I.MODULE)
            sl = lay if r.random() < 0.7 else r.choice(("single", "extended", "three", "ems"))
            if model in EMS and r.random() < 0.7:
                fn = r.choice(I.VIEW_EMS)
        else:
            t, fn = "ins", r.choice(I.INSTALL)
        a, kw = I.args(r, t, fn, sl or ("ems" if model in EMS else lay), bad)
        o = {"op": "call", "name": "set", "on": t, "fn": fn, "a": a, "kw": kw, "timeout": r.choice((0.4, 1.0)), "retries": r.choice((0, 1, 2)), "retry_delay": 0.1,
             "look": r.random() < 0.75}
        if sl:
            o["sl"] = sl
        if r.random() < 0.05:
            o["dry"] = True
        return o
    actors = [{"ops": main}]
    for _ in range(r.randrange(3, 14)):
        main.append(setting())
        if r.random() < 0.06:
            main[-1]["cancel_after"] = round(r.random() * 0.6, 3)
        if r.random() < 0.08:
            main.append({"op": "sleep", "t": round(r.random() * 3, 3)})
        if r.random() < 0.1:  # another application changes the device
            o = last[r.randrange(len(last))] if r.random() < 0.8 else fresh()
            a, kw = I.args(r, o["on"], o["fn"], o.get("sl") or ("ems" if model in EMS else lay), False)
            main.append({"op": "call", "name": "foreign", "on": o["on"], "fn": o["fn"], "a": a, "kw": kw, "sl": o.get("sl")})
        if r.random() < 0.05:
            main += r.choice(([{"op": "connect"}], [{"op": "close"}, {"op": "connect"}], [det]))
    if r.random() < 0.5:  # a poller beside it
        ops = [{"op": "sleep", "t": round(r.uniform(2, 12), 3)}]
        for _ in range(r.randrange(1, 8)):
            ops += [{"op": r.choice(("refresh", "load_config")), "timeout": 0.8, "retries": 1}, {"op": "sleep", "t": round(r.random() * 2, 3)}]
        actors.append({"ops": ops})
    if r.random() < 0.35:  # a second hand on the settings
        actors.append({"start": round(r.uniform(4, 14), 3), "ops": [setting() for _ in range(r.randrange(1, 6))]})
    faults = []
    x = r.random()
    if x < 0.5:
        faults = req_faults(r, 160, ["drop", "late", "err", "dup", "hb", "null", "unsol"], r.choice((0.03, 0.12, 0.3)))
    if r.random() < 0.15:
        faults.append(conn_fault(r, r.uniform(3, 20), ("eof", "rst", "stall")))
    halting(r, cfg, faults)
    return {"cfg": cfg, "dongles": [{"topo": topo, "mark": False, "fanout": r.random() < 0.1}], "actors": actors, "faults": faults, "horizon": 6000}


def _py(x):
    """A JSON argument as the caller would write it."""
    if isinstance(x, str) and x[:1] == "T":
        return datetime.time(int(x[1:3]), int(x[4:6]))
    if isinstance(x, str) and x[:1] == "D":
        return datetime.datetime.fromisoformat(x[1:])
    if isinstance(x, list) and len(x) == 2:
        from givenergy_modbus.model import TimeSlot
        return TimeSlot(_py(x[0]), _py(x[1]))
    return x


def plain(x):
    if x is None or isinstance(x, bool):
        return x
    if hasattr(x, "start") and hasattr(x, "end"):
        return f"{x.start:%H:%M}-{x.end:%H:%M}"
    if isinstance(x, datetime.datetime):
        return x.isoformat()
    if isinstance(x, float):
        return round(x, 3)
    return int(x) if isinstance(x, int) else repr(x)


def build(plan):
    w = World(plan)

    async def set_(w, cl, op, rec):
        from givenergy_modbus.client import commands
        from givenergy_modbus.exceptions import ExceptionBase
        from givenergy_modbus.model import slot_map
        from givenergy_modbus.model.register import HR
        c = w.clients[cl]
        caps = c.plant.capabilities
        rec["model"] = m = caps.device_type.name if caps is not None else None
        rec["fw"] = fw = caps.arm_firmware_version if caps is not None else None
        if m is None:
            return None
        if op["on"] == "inv" and not all(HR(k) in c.plant.register_caches.get(caps.inverter_address, {}) for k in (0, 21)):
            return None  # the slot layout of an inverter is known once its identity was read
        a = [_py(x) for x in op["a"]]
        kw = dict(op["kw"])
        if "sl" in op:
            if "slot" in op["fn"] and not any(x in op["fn"] for x in ("ems", "export", "pause", "smart")) or op["fn"] == "set_mode_storage":
                kw["slot_map"] = {"single": slot_map.SINGLE_PHASE_SLOTS, "extended": slot_map.EXTENDED_SLOTS, "three": slot_map.THREE_PHASE_SLOTS,
                                  "ems": slot_map.EMS_SLOTS}[op["sl"]]
        rec["began"] = w.tick()
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            owner = c.plant.inverter if op["on"] == "inv" else c.plant.ems if op["on"] == "ems" else commands
            reqs = getattr(owner, op["fn"])(*a, **kw)
        fn = c.installer_command if op["on"] == "ins" else c.one_shot_command
        await fn(reqs, timeout=op["timeout"], retries=op["retries"], retry_delay=op["retry_delay"], **({"dry_run": True} if op.get("dry") else {}))
        rec["done"] = w.tick()
        dev = w.dongles[0].topo.dev[0x11]["HR"]
        rec["held"] = dict(dev)
        if not op.get("look") or op.get("dry"):
            return None
        try:
            await c.load_config(timeout=1.0, retries=2)
        except (ExceptionBase, TimeoutError, OSError):
            return None
        rec["looked"] = w.tick()
        rec["dev"] = dict(dev)
        cache = c.plant.register_caches.get(0x11, {})
        out = {}
        try:
            regs = I.writes(op["on"], op["fn"], op["a"], op["kw"], op.get("sl") or I.layout(m, fw))
        except I.Refuse:
            return None
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            for g in regs:
                s = I.shown(m, fw, g)
                if s is not None and all(HR(k) in cache for k in s[2]):
                    out[s[1]] = (s, plain(getattr(getattr(c.plant, s[0]), s[1])))
        rec["view"] = out
        return None

    async def foreign(w, cl, op, rec):
        d = w.dongles[0].topo
        try:
            regs = I.writes(op["on"], op["fn"], op["a"], op["kw"], op.get("sl") or I.layout(d.model, d.fw))
        except I.Refuse:
            return
        for g, x in regs.items():
            if g in d.dev[0x11]["HR"]:
                d.set(0x11, "HR", g, x)
                rec.setdefault("foreign", []).append((w.tick(), g))
                w.applied.append((w.tick(), w.now, 0x11, g, x))
                w.fired["other application"] += 1
    w.extra["calls"] = {"set": set_, "foreign": foreign}
    return w


def check(w):
    v = []
    sets = []
    for r in w.ops:
        o = r["op"]
        if o["op"] != "call" or "began" not in r:
            continue
        try:
            regs = I.writes(o["on"], o["fn"], o["a"], o["kw"], o.get("sl") or I.layout(r["model"], r["fw"]))
            r["regs"] = regs if I.allowed(o["on"], r["model"], regs, INSTALLER) and all(0 <= x <= 0xFFFF for x in regs.values()) else None
        except I.Refuse:
            r["regs"] = None
        sets.append(r)
    alien = [x for r in w.ops for x in r.get("foreign") or ()]  # (seq, register) of changes made by another application
    writes = [x for x in w.tx if x.f is not None and x.f.kind == "write"]
    for r in sets:
        o = r["op"]
        if r["regs"] is None:
            if r["out"] not in ("ValueError", "InvalidPduState"):
                v.append({"what": "wrong-setting-not-refused", "op": o, "model": r["model"], "out": r["out"]})
            continue
        if r["out"] in ("ValueError", "InvalidPduState", "TypeError", "AttributeError", "KeyError", "OverflowError"):
            v.append({"what": "good-setting-refused", "op": o, "model": r["model"], "exc": repr(r.get("exc"))})
            continue
        if o.get("dry") or "done" not in r:
            continue
        others = [q for q in sets if q is not r and q["regs"] and not q["op"].get("dry") and q["began"] < r["done"] and (q["s1"] is None or q["s1"] > r["began"])]
        for g, x in r["regs"].items():
            if any(g in q["regs"] for q in others) or any(y[1] == g and r["began"] < y[0] < r["done"] for y in alien):
                continue
            if r["held"].get(g) != x:
                mine = [y for y in w.reqs if y["seq"] > r["began"] and y["f"].kind == "write" and y["f"].base == g]
                first = mine[0]["i"] if mine else 1 << 60
                if any(y.f is not None and y.f.kind == "write" and y.f.base == g and y.seqd is not None and r["began"] < y.seqd < r["done"] and
                       y.req is not None and y.req < first for y in w.rx):
                    continue  # taken for acknowledged by the answer to an earlier write of the same
                v.append({"what": "setting-not-in-effect", "op": o, "model": r["model"], "register": g, "wanted": x, "device": r["held"].get(g)})
                break
    for x in writes:
        if x.f.addr != 0x11 or not any(r["regs"] and not r["op"].get("dry") and r["began"] < x.seq and r["regs"].get(x.f.base) == x.f.value for r in sets):
            v.append({"what": "write-beyond-stated-settings", "frame": repr(x.f), "t": x.t,
                      "calls": [r["op"] for r in sets if r["began"] < x.seq][-2:]})
            break
    # what the views show
    for r in sets:
        for name, (s, got) in (r.get("view") or {}).items():
            if any(q is not r and q["regs"] and set(q["regs"]) & set(s[2]) and q["began"] < r["looked"] and (q["s1"] is None or q["s1"] > r["began"]) for q in sets):
                continue
            if any(y[1] in s[2] and r["began"] < y[0] < r["looked"] for y in alien):
                continue
            want = I.DECODE[s[3]]([r["dev"].get(g) for g in s[2]])
            if got == want:
                continue
            last = max([a[0] for a in w.applied if a[3] in s[2] and a[0] < r["looked"]], default=0)
            if any(y.f is not None and y.f.kind in ("read", "write") and y.f.addr == 0x11 and y.f.func in (3, 6) and y.seqd is not None and last < y.seqd < r["looked"] and
                   set(range(y.f.base, y.f.base + len(y.f.values or (1,)))) & set(s[2]) and
                   (y.req is None or w.reqs[y.req]["seq"] < last) for y in w.rx):
                continue  # older readings or acknowledgements arrived after the change
            v.append({"what": "setting-not-shown", "op": r["op"], "model": r["model"], "property": name, "wanted": want, "shown": got})
    return v


def nontrivial(w):
    return any("done" in r and not r["op"].get("dry") for r in w.ops) and any(r.get("view") for r in w.ops)


def probes(w):
    out = {}
    for r in w.ops:
        if r["op"]["op"] == "call" and "began" in r:
            k = "%s:%s" % (r["op"]["on"], r["out"])
            out[k] = out.get(k, 0) + 1
            k = "model:%s" % r["model"]
            out[k] = out.get(k, 0) + 1
            if "done" in r:
                out["fn:" + r["op"]["fn"]] = out.get("fn:" + r["op"]["fn"], 0) + 1
            for n in r.get("view") or ():
                out["shown"] = out.get("shown", 0) + 1
    return out
