"""Every quantity a view shows is the exact reading of the stored registers."""
import warnings

from .. import decode
from ..decode import FIELDS, agree, compare, plain, views
from ..feed import keeper
from ..topo import THREE_PHASE, Topology
from ..world import World, caps_dict
from . import p30
from .p30 import _caches

RUNS = {"quick": 1500, "thorough": 12000}
RULE = ("at every look, each of the ~1100 register-backed fields and each derived quantity of every view agreed with an independent decoding (own "
        "register table, own converters and bounds) of the registers stored at that moment, and the metadata queries named those registers and digits")

_REGS = {}


def _alts(view):
    """(type, index) -> list of alternatives (each a list of (register, value)) around the limits of the fields of a view."""
    if view not in _REGS:
        m = {}
        for k in FIELDS[view]:
            for alt in decode.raws(view, k):
                for reg, _ in alt:
                    m.setdefault(reg, []).append(alt)
        _REGS[view] = m
    return _REGS[view]


def _view_at(r, topo, a, f):
    if a == 0x11:
        v = ["ThreePhaseInverter" if topo.model in THREE_PHASE else "SinglePhaseInverter"]
        v += {"EMS": ["Ems"], "EMS_COMMERCIAL": ["Ems"], "GATEWAY": ["GatewayV1"]}.get(topo.model, [])
        return v
    if a == 0x31:
        return ["LvBcu"]
    if 0x32 <= a <= 0x37:
        return ["Battery"]
    if 0x50 <= a <= 0x6F:
        return ["Bmu"]
    if 0x70 <= a <= 0x8F:
        return ["Bcu"]
    if 1 <= a <= 8:
        return ["MeterProduct"] if f == 22 else ["Meter"]
    return []


def poke(r, topo, a, f, b, n, vals):
    """Put values at and just beyond the limits of some fields of the window."""
    t = {3: "HR", 4: "IR"}.get(f, "MR")
    alts = {}
    for v in _view_at(r, topo, a, f):
        for reg, x in _alts(v).items():
            if reg[0] == t and b <= reg[1] < b + n:
                alts.setdefault(reg, []).extend(x)
    keys = sorted(alts)
    if not keys:
        return
    wide = r.random()
    k = r.randrange(1, 5) if wide < 0.3 else r.randrange(3, 16) if wide < 0.7 else len(keys)
    for reg in r.sample(keys, min(k, len(keys))):
        y = r.random()
        if y < 0.08:
            vals[reg[1] - b] = 0
        elif y < 0.72:
            for (_, i), v in r.choice(alts[reg]):
                if b <= i < b + n:
                    vals[i - b] = v
        elif y < 0.9:
            vals[reg[1] - b] = r.randrange(65536)
        else:
            vals[reg[1] - b] = r.choice(p30.EDGE)


DTCS = [int(x, 16) for x in decode.TABLES["rated_power"]]


def gen(r, i, tier):
    plan = p30.gen(r, i, tier)
    top = plan["dongles"][0]["topo"]["model"]
    if top in ("EMS", "EMS_COMMERCIAL", "GATEWAY"):  # their own blocks rather than an inverter's
        base = (1600, 1660, 1720, 1780, 1840) if top == "GATEWAY" else (2040, 2040, 2040)
        for it in plan["feed"]:
            if it["a"] == 0x11 and r.random() < 0.5:
                it["b"], it["n"] = r.choice(base), 60
                it["f"] = 4 if top == "GATEWAY" else r.choice((3, 4, 4))
                it.pop("dtc", None)
                it["n"] = {3: 36, 4: 55}[it["f"]] if base[0] == 2040 else min(60, 1860 - it["b"])
    elif top in THREE_PHASE:
        for it in plan["feed"]:
            if it["a"] == 0x11 and r.random() < 0.6:
                it["f"], it["b"], it["n"] = r.choice([(3, 1000, 60), (3, 1060, 60), (3, 1120, 5)] + [(4, b, min(60, 1414 - b)) for b in range(1000, 1414, 60)] * 1)
                it.pop("dtc", None)
    for it in plan["feed"]:
        if "d" in it:
            continue
        if it["a"] == 0x11 and top not in ("EMS", "EMS_COMMERCIAL", "GATEWAY") and r.random() < 0.12:
            it["f"], it["b"], it["n"] = r.choice(((3, 480, 60), (3, 20000, 52), (3, 540, 60), (3, 0, 60), (4, 0, 60), (3, 60, 60), (3, 120, 60), (3, 240, 60)))
            it.pop("dtc", None)
        if r.random() < 0.75:
            it["v"] = "poke"
        if "dtc" in it or it["a"] == 0x11 and it["f"] == 3 and it["b"] == 0 and r.random() < 0.5:
            it["dtc"] = r.choice((r.choice(DTCS), r.choice(DTCS), r.choice((0x3001, 0x8001)), r.randrange(65536)))
        if it.get("wrap") and r.random() < 0.6:
            del it["wrap"]
        if it["ser"] in ("odd", "raw") and r.random() < 0.5:
            it["ser"] = "own"
    looks = plan["actors"][1]["ops"]
    ts = sorted({it["t"] for it in plan["feed"]})
    extra, at = [], 0.0
    for t in r.sample(ts, min(len(ts), r.choice((4, 10)))):
        extra.append(t + 0.02)
    ops = []
    for t in sorted(extra):
        if t > at:
            ops.append({"op": "sleep", "t": round(t - at, 3)})
            at = t
        ops.append({"op": "call", "name": "look"})
    plan["actors"].append({"ops": ops})
    plan["actors"][1]["ops"] = looks
    return plan


META = sorted(FIELDS)


def _meta(w, view):
    """registers_of / precision_of of one view class."""
    from givenergy_modbus.model import aio_battery, battery, ems, gateway, hv_bcu, inverter, inverter_threephase, lv_bcu, meter
    mod = {"AioBatteryModule": aio_battery, "Battery": battery, "Bcu": hv_bcu, "Bmu": hv_bcu, "Ems": ems, "GatewayV1": gateway, "GatewayV2": gateway,
           "LvBcu": lv_bcu, "Meter": meter, "MeterProduct": meter, "SinglePhaseInverter": inverter, "ThreePhaseInverter": inverter_threephase}[view]
    getter = getattr(mod, view + "RegisterGetter")
    cls = getattr(mod, view)
    for k, (pre, post, regs, _lo, _hi) in FIELDS[view].items():
        got = tuple((x.reg_type, x.index) for x in getter.registers_of(k))
        if got != regs:
            w.violate("registers_of names other registers", field=f"{view}.{k}", got=repr(got), want=repr(regs))
        conv = post or pre
        want = decode.DIGITS.get(conv[0] if isinstance(conv, list) else conv)
        for who in (getter, cls):
            if hasattr(who, "precision_of") and who.precision_of(k) != want:
                w.violate("precision_of reports other digits", field=f"{view}.{k}", got=repr(who.precision_of(k)), want=repr(want))
    if getter.registers_of("no such field") != () or getter.precision_of("no such field") is not None:
        w.violate("metadata of an unknown field", field=view)


async def look(w, cl, op, rec):
    p = w.clients[cl].plant
    caches = _caches(p)
    caps = caps_dict(p.capabilities)
    seen = w.extra.setdefault("seen", set())
    n = 0
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        for path, obj, expected in views(p, caps, caches):
            if type(obj).__name__ != expected[0]:
                w.violate("a view is decoded as another kind of device", view=path, shown=type(obj).__name__, want=expected[0], t=w.now)
                continue
            n += len(expected[1])
            for f, got, want in compare(obj, expected, path):
                w.violate("a view shows another quantity than its registers hold", field=f, shown=repr(got), want=repr(want), t=w.now)
            seen.update(f"{expected[0]}.{k}" for k, v in expected[1].items() if v is not None)
        bs = [decode.battery(caches.get(a, {}))[1] for a in (caps["lv_battery_addresses"] if caps else range(0x32, 0x32 + len(p.batteries)))]
        es = [b["remaining_energy_nominal_wh"] for b in bs]
        es = [e for e in es if e is not None]
        got = p.remaining_battery_energy_wh
        if (got is None) != (not es) or es and abs(got - sum(es)) > 0.51 * len(es):
            w.violate("the plant's remaining energy is not the packs' total", shown=repr(got), want=repr(es), t=w.now)
        from givenergy_modbus.model.gateway import GatewayV2
        from givenergy_modbus.model.meter import MeterProduct
        for a, c in caches.items():
            if any(t == "MR" for t, _ in c):
                for f, got, want in compare(MeterProduct.from_register_cache(p.register_caches[a]), plain("MeterProduct", c), f"product of meter 0x{a:02x}"):
                    w.violate("a view shows another quantity than its registers hold", field=f, shown=repr(got), want=repr(want), t=w.now)
                seen.add("MeterProduct")
        if caps and caps["device_type"] == "GATEWAY" and caps["inverter_address"] in caches:
            a = caps["inverter_address"]
            for f, got, want in compare(GatewayV2.from_register_cache(p.register_caches[a]), plain("GatewayV2", caches[a]), "gateway (V2 layout)"):
                w.violate("a view shows another quantity than its registers hold", field=f, shown=repr(got), want=repr(want), t=w.now)
    w.extra["looks"] = w.extra.get("looks", 0) + 1
    w.extra["fields"] = w.extra.get("fields", 0) + n


def build(plan):
    plan = dict(plan)
    plan["faults"] = sorted(plan.get("faults", []) + p30.expand(plan, poke), key=lambda f: f.get("at", 0))
    w = World(plan)
    how = plan.get("how")
    caps = None
    if how == "preset":
        spec = plan["dongles"][0]
        caps = Topology(spec["topo"], spec["tseed"]).expected_caps()
    elif how == "odd":
        caps = plan["caps"]

    def setup(w):
        if caps is not None:
            w.clients[0].plant.capabilities = w.mk_caps(caps)
        _meta(w, META[plan.get("q", 0) % len(META)])
    w.extra["setup"] = setup
    w.extra["calls"] = {"keep": keeper, "look": look, "direct": p30.direct}
    return w


def check(w):
    return list(w.violations)


def nontrivial(w):
    return w.extra.get("looks", 0) > 0


def probes(w):
    return {"looks": w.extra.get("looks", 0), "fields_compared": w.extra.get("fields", 0), "fields_with_a_value_in_run": len(w.extra.get("seen", ()))}
