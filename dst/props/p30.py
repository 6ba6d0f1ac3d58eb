"""Typed views never fail on received data, and show what is stored."""
import copy
import dataclasses
import datetime as dt
import warnings

from .. import wire
from ..feed import keeper, spoil
from ..gen import WRITE_REGS, write_op
from ..rng import keyed
from ..topo import MODELS, Topology, ser_words, serial
from ..world import World, caps_dict

RUNS = {"quick": 420, "thorough": 6000}
RULE = ("every reading of every public view and status query returned a value, changed no stored register, agreed with a second reading, with a plant "
        "rebuilt from copies of the stored registers, and with an independent decoding of selected registers")
ANY_MODEL = ["HYBRID", "AC", "HYBRID_3PH", "EMS", "AC_3PH", "GATEWAY", "ALL_IN_ONE", "HYBRID_GEN1", "HYBRID_GEN2", "HYBRID_GEN3", "POLAR", "AIO_COMMERCIAL",
             "EMS_COMMERCIAL", "HYBRID_HV_GEN3", "ALL_IN_ONE_HYBRID", "HYBRID_GEN4"]
BASES = {3: (0, 60, 120, 180, 240, 300, 1000, 1060, 1080, 1120, 2040, 4107),
         4: (0, 60, 120, 180, 240, 300, 360, 1000, 1060, 1120, 1180, 1240, 1300, 1360, 1420, 1600, 1660, 1720, 1780, 1840, 2040),
         22: (0, 60)}
ADDRS = [0x11, 0x11, 0x11, 0x31, 0x32, 0x33, 0x37, 0x50, 0x51, 0x53, 0x70, 0x71, 0xA0, 1, 2, 8, 0x10, 0x21, 0x45]
MODES = ("rand", "edge", "edge", "mixed", "zero", "small", "mutate", "mutate", "valid")


# -- generation --------------------------------------------------------------------
def _topo(r):
    nm = r.choice(sorted(MODELS))
    t = {"model": nm}
    t["batteries"] = r.choice(([], [0x32], [0x32, 0x33, 0x34], [0x33, 0x35]))
    t["meters"] = r.choice(([], [1], [1, 2, 8]))
    t["bcus"] = r.choice(([], [2], [3, 1], [4]))
    t["lv_bcu"] = r.random() < 0.3
    return t


def gen(r, i, tier):
    topo = _topo(r)
    ts = r.randrange(1 << 30)
    over = None
    how = r.choice(("preset", "preset", "preset", "bare", "detect", "odd"))
    if how == "odd":  # capabilities restored from elsewhere: they need not match what the dongle sends
        over = {"device_type": r.choice(ANY_MODEL), "inverter_address": r.choice((0x11, 0x11, 0x31, 0x32)),
                "meter_addresses": r.sample(range(1, 9), r.randrange(4)), "lv_battery_addresses": r.sample(range(0x32, 0x38), r.randrange(4)),
                "bcu_stacks": r.choice(([], [[0, 2]], [[1, 1], [0, 3]], [[0, 0]])), "aio_battery_module_addresses": r.choice(([], [0x50, 0x51, 0x52])),
                "hv_bmu_addresses": r.choice(([], [0x50, 0x52])), "lv_bcu_address": r.choice((None, 0x31, 0xA0)),
                "arm_firmware_version": r.choice((None, 0, 449, 65535))}
    t, feed = 0.5, []
    hot = r.sample(ADDRS, r.choice((1, 3, 6))) + [0x11]
    for j in range(r.choice((6, 15, 40))):
        t += r.choice((0.0, 0.02, 0.5, 20)) * r.random()
        a = r.choice(hot)
        f = r.choice((3, 4, 4, 4, 22))
        if a == 0x11 and r.random() < 0.3:
            f, b = 3, 0
        else:
            b = r.choice(BASES[f])
        n = 60
        if 0x32 <= a <= 0x37 and r.random() < 0.7 or 0x50 <= a <= 0x7F and r.random() < 0.7:
            f, b = 4, 60
        if 0x70 <= a <= 0x7F and r.random() < 0.5:
            f, b = 4, 120
        if r.random() < 0.15:
            b, n = b + r.randrange(60), r.randrange(1, 61)
        it = {"t": round(t, 3), "a": a, "f": f, "b": b, "n": n, "v": r.choice(MODES), "ser": r.choice(("own", "own", "own", "other", "odd", "raw")), "id": j + 1}
        if r.random() < 0.15:
            it["wrap"] = r.choice(("crc", "error", "null", "susp", "count", "func"))
        if a == 0x11 and f == 3 and r.random() < 0.4:
            it["dtc"] = r.choice((0, 1, 0x0001, 0x1001, 0x9001, 0xA001, 0xF001, 0xFFFF, 0x2004, 0x2103, 0x5001, 0x8402, r.randrange(65536)))
        feed.append(it)
        if 0x32 <= a <= 0x37 and r.random() < 0.5:  # ride through the cold-start baseline
            feed.append(dict(it, t=round(t + 0.01, 3)))
    end = t + 5
    ops = [{"op": "connect"}]
    if how == "detect":
        ops.append({"op": "detect", "timeout": 0.5, "retries": 1, "probe_timeout": 0.1, "probe_retries": 0})
    elif r.random() < 0.5:
        ops.append({"op": r.choice(("load_config", "refresh")), "timeout": 0.5, "retries": 0})
    ops.append({"op": "call", "name": "keep", "until": end, "every": 1.0})
    looks = []
    for _ in range(r.choice((3, 6, 9))):
        looks += [{"op": "sleep", "t": round(r.choice((0.05, 0.4, end / 6)) * r.random(), 3)}, {"op": "call", "name": "look"}]
    looks += [{"op": "sleep", "t": round(end / 2, 3)}, {"op": "call", "name": "look"}]
    if r.random() < 0.4:  # settings changed between two readings of the views
        for _ in range(r.randrange(1, 4)):
            k = r.randrange(1, len(looks) + 1)
            looks[k:k] = [{"op": "call", "name": "look"}, write_op(r.choice(WRITE_REGS), r.choice((0, 1, 4, r.randrange(100), r.randrange(65536))), 0.5, 0),
                          {"op": "call", "name": "look"}]
    dongles = [{"topo": topo, "tseed": ts, "lat": [0.001, 0.01], "absent_bank": r.choice(("silent", "error"))}]
    actors = [{"ops": ops}, {"ops": looks}]
    clients = [{"d": 0}]
    if topo["model"] in ("EMS", "EMS_COMMERCIAL") and r.random() < 0.7:  # a second client reads one of the managed inverters directly
        dongles.append({"topo": {"model": r.choice(sorted(MODELS))}, "tseed": ts + 1, "lat": [0.001, 0.01]})
        clients.append({"d": 1})
        actors.append({"client": 1, "ops": [{"op": "connect"}, {"op": "read", "addr": 0x11, "func": 3, "base": 0, "count": 60, "timeout": 1.0, "retries": 0}]})
        actors[1]["ops"].insert(r.randrange(0, len(looks), 2), {"op": "call", "name": "direct"})
        if r.random() < 0.5:
            feed.append({"t": 0.6, "a": 0x11, "f": 3, "b": 0, "n": 60, "v": r.choice(MODES), "ser": "own", "id": 999, "d": 1, "dtc": r.choice((0, 0x2001, 0x9001, 0xFFFF))})
    cfg = {"client": {"tx_message_wait": 0.0, "tx_jitter": 0.0}, "seg": r.choice(("whole", "random", "bytes")), "coalesce": r.random() < 0.3,
           "lat": [0.001, 0.002]}
    faults = [{"at": round(r.uniform(1, end), 2), "act": r.choice(("eof", "rst", "jump")), "s": r.choice((-4000, 300, 1e6))} for _ in range(r.choice((0, 0, 1, 2)))]
    for k in range(r.choice((0, 0, 8))):
        faults.append({"req": r.randrange(30), "act": r.choice(("err", "crc", "null", "flip", "drop", "garbage"))})
    return {"cfg": cfg, "how": how, "caps": over, "clients": clients, "dongles": dongles, "actors": actors, "feed": feed, "faults": faults,
            "horizon": end + 60, "q": r.randrange(1 << 30)}


EDGE = (0, 0, 1, 2, 59, 60, 99, 2359, 2400, 0x7FFF, 0x8000, 0xFF00, 0xFFFE, 0xFFFF)


def expand(plan, poke=None):
    out = []
    for j, it in enumerate(plan.get("feed", ())):
        d = it.get("d", 0)
        if d >= len(plan["dongles"]):
            continue
        spec = plan["dongles"][d]
        topo = Topology(spec["topo"], spec["tseed"])
        r = keyed("odd", spec["tseed"], it.get("id", j))
        a, f, b, n, mode = it["a"], it["f"], it["b"], it["n"], it["v"]
        m = topo.dev.get(a, {}).get({3: "HR", 4: "IR"}.get(f, "MR"), {})
        if mode == "zero":
            vals = [0] * n
        elif mode == "edge":
            vals = [r.choice(EDGE) for _ in range(n)]
        elif mode == "rand":
            vals = [r.randrange(65536) for _ in range(n)]
        elif mode == "small":
            vals = [r.randrange(4) for _ in range(n)]
        elif mode == "mixed":
            vals = [r.choice((0, 0, r.randrange(100), r.choice(EDGE), r.randrange(65536))) for _ in range(n)]
        else:
            vals = [m.get(b + k, r.randrange(90)) for k in range(n)]
            if mode == "mutate":
                for _ in range(r.randrange(1, 9)):
                    vals[r.randrange(n)] = r.choice((r.choice(EDGE), r.randrange(65536)))
            if mode == "poke":
                poke(r, topo, a, f, b, n, vals)
        if it["ser"] != "raw":
            s = {"own": topo._ser(a), "other": serial("foreign2", spec["tseed"]), "odd": r.choice(("", "A", "AB1234G56", "\x00B1234G567", "          ", "ab!"))}[it["ser"]]
            w = ser_words(s.ljust(10, "\0"))
            at = [13] if f == 3 else {0x3: [110], 0x5: [114], 0x6: [114], 0x7: [138]}.get(a >> 4, [2066, 2071, 1841, 1627]) if f == 4 else []
            for base in it.get("sat", at):
                for k, x in enumerate(w):
                    if b <= base + k < b + n:
                        vals[base + k - b] = x
        if "dtc" in it and b == 0:
            vals[0] = it["dtc"]
        if 0x70 <= a <= 0x7F and f == 4 and b <= 64 < b + n:  # a stack's module count: detect() believes it, and a view has that many parts
            vals[64 - b] %= 40
        raw = spoil(None, it.get("wrap"), r, topo.adapter, topo._ser(a), a, f, b, n, vals)
        out.append({"at": round(it["t"], 4), "act": "push", "raw": raw.hex(), "d": d, "tag": it.get("wrap") or "odd", "set": []})
    return out


# -- reading everything ----------------------------------------------------------------
def _own(o):
    return type(o).__module__.startswith("givenergy_modbus")


SKIP = {"model_fields", "model_computed_fields", "model_fields_set", "model_extra"}


class Reader:
    def __init__(self):
        self.fail = []
        self.n = 0

    def get(self, path, fn):
        self.n += 1
        try:
            return True, fn()
        except Exception as e:  # noqa: BLE001
            if isinstance(e, AttributeError) and "has been removed" in str(e):
                return False, None
            self.fail.append((path, type(e).__name__, str(e)[:120]))
            return False, None

    def render(self, o, path, depth=0):
        from pydantic import BaseModel
        from givenergy_modbus.model.plant import Plant
        if isinstance(o, dict):
            return {repr(k): self.render(v, f"{path}[{k!r}]", depth + 1) for k, v in o.items()}
        if isinstance(o, (list, tuple)):
            return [self.render(v, f"{path}[{k}]", depth + 1) for k, v in enumerate(o)]
        if not _own(o) or depth > 5 or isinstance(o, type):
            return repr(o)
        import enum
        if isinstance(o, enum.Enum):
            return repr(o)
        out = {"": type(o).__name__}
        for k in sorted({k for c in type(o).__mro__ for k in vars(c)}):
            if k.startswith("_") or k in SKIP:
                continue
            if isinstance(getattr(type(o), k, None), property):
                ok, v = self.get(f"{path}.{k}", lambda k=k: getattr(o, k))
                if ok:
                    out[k] = self.render(v, f"{path}.{k}", depth + 1)
            elif k == "is_valid" and callable(getattr(o, k, None)):
                out[k] = self.get(f"{path}.{k}()", o.is_valid)[1]
        if not isinstance(o, Plant):
            if isinstance(o, BaseModel):
                for k in type(o).model_fields:
                    ok, v = self.get(f"{path}.{k}", lambda k=k: getattr(o, k))
                    if ok:
                        out[k] = self.render(v, f"{path}.{k}", depth + 1)
                out["dump"] = repr(self.get(f"{path}.model_dump()", o.model_dump)[1])
                out["json"] = self.get(f"{path}.model_dump_json()", o.model_dump_json)[1]
            elif dataclasses.is_dataclass(o):
                for fl in dataclasses.fields(o):
                    out[fl.name] = self.render(getattr(o, fl.name), f"{path}.{fl.name}", depth + 1)
            self.get(f"repr({path})", lambda: repr(o))
            self.get(f"str({path})", lambda: str(o))
        return out


def _caches(p):
    return {a: {(type(k).__name__, k.index): v for k, v in dict.items(c)} for a, c in p.register_caches.items()}


def _first(x, y, path="plant"):
    if type(x) is not type(y):
        return path, repr(x)[:80], repr(y)[:80]
    if isinstance(x, dict):
        for k in list(x) + [k for k in y if k not in x]:
            if k not in x or k not in y:
                return f"{path}.{k}", repr(x.get(k, "absent"))[:80], repr(y.get(k, "absent"))[:80]
            d = _first(x[k], y[k], f"{path}.{k}")
            if d:
                return d
        return None
    if isinstance(x, list):
        if len(x) != len(y):
            return path, f"{len(x)} items", f"{len(y)} items"
        for k, (u, v) in enumerate(zip(x, y)):
            d = _first(u, v, f"{path}[{k}]")
            if d:
                return d
        return None
    return None if x == y else (path, repr(x)[:120], repr(y)[:120])


def _serial(c, typ, base):
    ws = [c.get((typ, base + k)) for k in range(5)]
    if None in ws:
        return None
    return b"".join(w.to_bytes(2, "big") for w in ws).decode("latin1").replace("\0", "").upper()


def _i16(x):
    return x - 65536 if x & 0x8000 else x


def independent(p, caches):
    """Selected registers decoded without the library."""
    out = []

    def same(what, got, want, optional=False):
        if optional and got is None:
            return
        if isinstance(got, float) and isinstance(want, (int, float)):
            if abs(got - want) < 1e-6:
                return
        elif got == want:
            return
        out.append((what, repr(got), repr(want)))

    caps = caps_dict(p.capabilities)
    empty = {}
    if caps:
        bs = p.batteries
        same("number_batteries", p.number_batteries, len(caps["lv_battery_addresses"]))
        same("len(batteries)", len(bs), len(caps["lv_battery_addresses"]))
        pairs = list(zip(caps["lv_battery_addresses"], bs))
        ms = p.meters
        same("meter addresses", sorted(ms), sorted(caps["meter_addresses"]))
        for a, mt in ms.items():
            c = caches.get(a, empty)
            v = c.get(("IR", 60))
            want = None if v is None else v / 10 if v <= 5000 else None
            same(f"meters[{a}].v_phase_1", mt.v_phase_1, want)
            v = c.get(("IR", 63))
            same(f"meters[{a}].i_phase_1", mt.i_phase_1, None if v is None else v / 100, optional=True)
            v = c.get(("IR", 71))
            same(f"meters[{a}].p_active_total", mt.p_active_total, None if v is None else _i16(v), optional=v is not None and abs(_i16(v)) > 20000)
        st = p.hv_stacks
        same("hv stacks", [s.device_address for s in st], [0x70 + o for o, _ in caps["bcu_stacks"]])
        n0 = 0x50
        for s, (o, n) in zip(st, caps["bcu_stacks"]):
            same(f"hv_stacks[{o}].bcu.serial", s.bcu.serial_number, _serial(caches.get(0x70 + o, empty), "IR", 138))
            same(f"hv_stacks[{o}] modules", len(s.bmus), n)
            for b in s.bmus:
                c = caches.get(n0, empty)
                v = c.get(("IR", 60))
                same(f"bmu at 0x{n0:02x} cell 1", getattr(b, "v_cell_01", None), None if v is None else v / 1000, optional=True)
                n0 += 1
    else:
        pairs = []
        for a in range(0x32, 0x38):
            c = caches.get(a, empty)
            s = _serial(c, "IR", 110)
            if not (s and len(s) == 10 and s.isalnum()):
                break
            pairs.append((a, None))
        if all(x < 128 for a in range(0x32, 0x38) for k in range(110, 115) for x in divmod(caches.get(a, empty).get(("IR", k), 0), 256)):
            same("number_batteries", p.number_batteries, len(pairs))
            bs = p.batteries
            same("len(batteries)", len(bs), len(pairs))
            pairs = [(a, b) for (a, _), b in zip(pairs, bs)]
        else:
            pairs = []
    for a, b in pairs:
        c = caches.get(a, empty)
        same(f"battery at 0x{a:02x} serial", b.serial_number, _serial(c, "IR", 110))
        for nm, reg, sc, lo, hi in (("soc", 100, 1, 0, 100), ("num_cells", 97, 1, 0, 65535), ("bms_firmware_version", 98, 1, 0, 65535), ("v_cell_01", 60, 1000, 1000, 5000),
                                    ("v_cell_16", 75, 1000, 1000, 5000), ("v_cells_sum", 80, 1000, 16000, 65535), ("num_cycles", 96, 1, 0, 65535)):
            v = c.get(("IR", reg))
            want = None if v is None or v and not lo <= v <= hi else v / sc if sc > 1 else v
            same(f"battery at 0x{a:02x} {nm}", getattr(b, nm), want)
        hi, lo = c.get(("IR", 88)), c.get(("IR", 89))
        same(f"battery at 0x{a:02x} cap_remaining", b.cap_remaining, None if hi is None or lo is None else (hi << 16 | lo) / 100)
    ia = caps["inverter_address"] if caps else 0x11
    c = caches.get(ia, empty)
    inv = p.inverter
    same("inverter serial", inv.serial_number, _serial(c, "HR", 13))
    v = c.get(("HR", 0))
    same("inverter device type code", inv.device_type_code, None if v is None else f"{v:04x}")
    v = c.get(("HR", 21))
    same("inverter arm firmware", inv.arm_firmware_version, v)
    return out


async def look(w, cl, op, rec):
    from givenergy_modbus.model.plant import Plant
    from givenergy_modbus.model.register_cache import RegisterCache
    p = w.clients[cl].plant
    r = keyed("look", w.plan.get("q", 0), rec["id"])
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        before = _caches(p)
        rd = Reader()
        one = rd.render(p, "plant")
        keys = list(p.register_block_updated_at) + [(r.choice(ADDRS), r.choice(("HR", "IR")), 0, 60)]
        for k in r.sample(keys, min(4, len(keys))):
            now = r.choice((None, dt.datetime(2026, 1, 1, 10), dt.datetime(2026, 1, 1, 10, tzinfo=dt.timezone.utc)))  # noqa: UP017
            rd.get(f"plant.block_age{k}", lambda: p.block_age(*k, now=now))
            rd.get(f"plant.content_unchanged_seconds{k}", lambda: p.content_unchanged_seconds(*k, now=now))
            rd.get(f"plant.block_present{k}", lambda: p.block_present(*k))
            from givenergy_modbus.model.register import HR, IR
            T = HR if k[1] == "HR" else IR
            rd.get("plant.register_age", lambda: p.register_age(k[0], T(k[2] + r.randrange(60)), now=now))
        rd.get("plant.redact()", p.redact)
        for path, kind, msg in rd.fail:
            w.violate("a view failed on received data", view=path, error=f"{kind}: {msg}", t=w.now)
        after = _caches(p)
        if after != before:
            w.violate("reading the views changed the stored registers", t=w.now,
                      devices=[hex(a) for a in set(before) | set(after) if before.get(a) != after.get(a)])
        rd2 = Reader()
        two = rd2.render(p, "plant")
        dif = _first(one, two)
        if dif:
            w.violate("two readings of the same state differ", view=dif[0], first=dif[1], second=dif[2], t=w.now)
        if not rd.fail:
            twin = Plant()
            twin.register_caches = {a: RegisterCache(dict(dict.items(c))) for a, c in p.register_caches.items()}
            twin.capabilities = copy.deepcopy(p.capabilities)
            twin.inverter_serial_number, twin.data_adapter_serial_number = p.inverter_serial_number, p.data_adapter_serial_number
            for f in ("register_block_updated_at", "register_block_present", "crc_failure_count", "splice_rejections"):
                if hasattr(p, f):
                    setattr(twin, f, copy.deepcopy(getattr(p, f)))
            if cl == 0 and w.extra.get("direct"):
                twin.add_direct_source({j: RegisterCache(dict(dict.items(c))) for j, c in enumerate(w.extra["direct"])})
            three = Reader().render(twin, "plant")
            dif = _first(one, three)
            if dif:
                w.violate("a view does not show the stored registers", view=dif[0], shown=dif[1], stored=dif[2], t=w.now)
            for what, got, want in independent(p, before):
                w.violate("a view shows another value than the stored registers hold", view=what, shown=got, stored=want, t=w.now)
    w.extra["looks"] = w.extra.get("looks", 0) + 1
    w.extra["reads"] = w.extra.get("reads", 0) + rd.n + rd2.n
    w.extra.setdefault("models", set()).add(one.get("inverter", {}).get("", "") if isinstance(one.get("inverter"), dict) else "")


async def direct(w, cl, op, rec):
    if len(w.clients) > 1:
        w.extra.setdefault("direct", []).extend(w.clients[1].plant.register_caches.values())
        w.clients[0].plant.add_direct_source(w.clients[1].plant.register_caches)


def build(plan):
    plan = dict(plan)
    plan["faults"] = sorted(plan.get("faults", []) + expand(plan), key=lambda f: f.get("at", 0))
    w = World(plan)
    how = plan.get("how")
    caps = None
    if how == "preset":
        spec = plan["dongles"][0]
        caps = Topology(spec["topo"], spec["tseed"]).expected_caps()
    elif how == "odd":
        caps = plan["caps"]

    def setup(w):
        if caps is not None:
            w.clients[0].plant.capabilities = w.mk_caps(caps)
    w.extra["setup"] = setup
    w.extra["calls"] = {"keep": keeper, "look": look, "direct": direct}
    return w


def check(w):
    return list(w.violations)


def nontrivial(w):
    return w.extra.get("looks", 0) > 0


def probes(w):
    return {"looks": w.extra.get("looks", 0), "view_readings": w.extra.get("reads", 0)}
