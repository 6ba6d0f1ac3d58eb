"""The topology walk lists every known device once, under the right identity, parent and owner."""
import warnings

from .. import decode, graph
from ..feed import keeper
from ..topo import MODELS, Topology, ser_words, serial
from ..world import World, caps_dict
from . import p30, p34
from .p30 import _caches

RUNS = {"quick": 900, "thorough": 12000}
RULE = ("at every look, Plant.devices, .inverters, .serial_index and .inverter_serial agreed row by row (identity, kind, parent, serial, firmware, validity, "
        "authority, source, order, decoded device) with an independent walk of the capabilities and registers of that moment")
SERS = ["CE2148G047", "SA2114G001", "ED2233G900", "CH2311G123", "EMS2522018", "BX2233G555"]


def _sers(plan, key):
    """Serial numbers the blocks of a run draw from: real devices, one foreign, blanks, padded and damaged ones."""
    out = [Topology(d["topo"], d["tseed"])._ser(0x11) for d in plan["dongles"]]
    s = serial("foreign2", key)
    return out + out[-1:] * 2 + [s, SERS[key % 6], "", " " * 10, "\0" * 10, "AB12\0\0G567", out[-1][:8] + "  ", "  " + s[:8], out[-1].lower(), "0" * 10]


def _poke(plan):
    def fn(r, topo, a, f, b, n, vals):
        p34.poke(r, topo, a, f, b, n, vals)
        pool = _sers(plan, plan["q"] & 7)
        t = {3: "HR", 4: "IR"}.get(f, "MR")
        views = p34._view_at(r, topo, 0x11 if a == 0x31 and f == 3 else a, f) + (["AioBatteryModule"] if 0x50 <= a <= 0x6F else [])
        for v in views:
            for _k, x in decode.FIELDS[v].items():
                if x[0] == "serial" and x[2][0][0] == t and all(b <= i < b + n for _, i in x[2]) and r.random() < 0.85:
                    for (_, i), word in zip(x[2], ser_words(r.choice(pool).ljust(10, "\0"))):
                        vals[i - b] = word
        if "Meter" in views and b <= decode.FIELDS["Meter"]["v_phase_1"][2][0][1] < b + n and r.random() < 0.25:
            vals[decode.FIELDS["Meter"]["v_phase_1"][2][0][1] - b] = 0  # what decides whether a meter is there
        for v in ("Bcu",) if "Bcu" in views else ():
            regs = decode.FIELDS[v]["pack_software_version"][2]
            if all(b <= i < b + n for _, i in regs) and r.random() < 0.6:
                for (_, i), word in zip(regs, r.choice(((0x4741, 0x3030, 0x0001, 0x0209), (0, 0, 0, 0), (0x3030, 0x3030, 0, 0), (0x2020,) * 2 + (0, 0), (0, 0, 0, 7)))):
                    vals[i - b] = word
    return fn


def gen(r, i, tier):
    plan = p34.gen(r, i, tier)
    top = plan["dongles"][0]["topo"]["model"]
    if r.random() < 0.3 and top not in ("EMS", "EMS_COMMERCIAL"):  # controllers more often
        plan["dongles"][0]["topo"]["model"] = top = r.choice(("EMS", "EMS_COMMERCIAL", "GATEWAY", "ALL_IN_ONE"))
        if top.startswith("EMS"):
            plan["dongles"] = plan["dongles"][:1] + [{"topo": {"model": r.choice(sorted(MODELS))}, "tseed": plan["dongles"][0]["tseed"] + 1, "lat": [0.001, 0.01]}]
            plan["clients"] = [{"d": 0}, {"d": 1}]
            plan["actors"].append({"client": 1, "ops": [{"op": "connect"}, {"op": "refresh" if r.random() < 0.5 else "read", "addr": 0x11, "func": 3, "base": 0, "count": r.choice((60, 60, 20)),
                                                                           "timeout": 1.0, "retries": 0}]})
            plan["actors"][1]["ops"].insert(0, {"op": "call", "name": "direct"})
    ems = top in ("EMS", "EMS_COMMERCIAL")
    for it in plan["feed"]:
        if ems and it["a"] == 0x11 and "d" not in it and r.random() < 0.6:
            it["f"], it["b"], it["n"] = 4, 2040, 55
            it.pop("dtc", None)
        it["v"] = "poke" if r.random() < 0.85 else it["v"]
        if it["v"] == "poke":
            it["ser"] = "raw"
    if ems and len(plan["clients"]) > 1:
        for k in range(r.choice((0, 0, 1, 2))):  # further managed inverters with connections of their own
            plan["dongles"].append({"topo": {"model": r.choice(sorted(MODELS))}, "tseed": plan["dongles"][0]["tseed"] + 2 + k, "lat": [0.001, 0.01]})
            plan["clients"].append({"d": len(plan["dongles"]) - 1})
            plan["actors"].append({"client": len(plan["clients"]) - 1, "ops": [{"op": "connect"}, {"op": "read", "addr": 0x11, "func": 3, "base": 0, "count": r.choice((60, 60, 20)),
                                                                                                  "timeout": 1.0, "retries": 0}]})
            plan["actors"][1]["ops"].insert(r.randrange(len(plan["actors"][1]["ops"]) + 1), {"op": "call", "name": "direct", "k": len(plan["clients"]) - 1})
        t = 0.5
        for k in range(r.choice((0, 2, 6))):  # what those connections receive goes on changing
            t += r.random() * 5
            it = {"t": round(t, 3), "a": r.choice((0x11, 0x11, 0x32)), "f": r.choice((3, 3, 4)), "b": 0, "n": r.choice((60, 20)), "v": "poke", "ser": "raw", "id": 700 + k, "d": r.randrange(1, len(plan["dongles"]))}
            if it["f"] == 3 and it["a"] == 0x11:
                it["dtc"] = r.choice(p34.DTCS + [0, 0xFFFF])
            plan["feed"].append(it)
        for _ in range(r.choice((0, 0, 1))):
            plan["actors"][1]["ops"].insert(r.randrange(len(plan["actors"][1]["ops"]) + 1), {"op": "call", "name": "direct"})
    plan["feed"].sort(key=lambda it: it["t"])
    if plan["how"] == "odd" and plan["caps"]["inverter_address"] == 0x31:
        for it in plan["feed"]:
            if it["a"] == 0x11 and "d" not in it and r.random() < 0.4:
                it["a"] = 0x31
    if plan["how"] == "odd" and r.random() < 0.5:
        caps = plan["caps"]
        caps["device_type"] = top if r.random() < 0.7 and top in p30.ANY_MODEL else caps["device_type"]
        caps["lv_battery_addresses"] = r.sample(range(0x32, 0x38), r.randrange(6))
    return plan


def _bad(w, what, **k):
    w.violate(what, t=w.now, **k)


def look(w, cl, op, rec):
    p = w.clients[cl].plant
    caches = _caches(p)
    caps = caps_dict(p.capabilities)
    directs = [{(type(k).__name__, k.index): v for k, v in dict.items(c)} for c in w.extra.get("direct", ())] if cl == 0 else []
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        rows, us = graph.walk(caps, caches, p.inverter_serial_number, directs)
        got = p.devices
        if p.inverter_serial != rows[0].identity:
            _bad(w, "the plant's serial is not the resolved one", shown=p.inverter_serial, want=rows[0].identity)
        a = [(x.identity, x.device_type.value, x.parent) for x in got]
        b = [(x.identity, x.kind, x.parent) for x in rows]
        if a != b:
            k = next((n for n in range(max(len(a), len(b))) if n >= len(a) or n >= len(b) or a[n] != b[n]))
            _bad(w, "the walk lists other rows than there are devices", at=k, shown=repr(a[k] if k < len(a) else None), want=repr(b[k] if k < len(b) else None))
        else:
            for x, y in zip(got, rows):
                one = (x.serial_number, x.firmware_version, x.is_valid, x.is_control_authority, x.data_source)
                two = (y.serial, y.fw, y.valid, y.root, y.source)
                if one != two:
                    _bad(w, "a row of the walk misdescribes its device", row=y.identity, shown=repr(one), want=repr(two))
                    continue
                if isinstance(y.want, graph.Unit):
                    d = graph.unit_differs(x.device, y.want)
                else:
                    o = x.device.bcu if y.kind == "hv_stack" else x.device
                    d = ("kind", type(o).__name__, y.want[0]) if type(o).__name__ != y.want[0] else None
                    for e in () if d else decode.compare(o, y.want, "device"):
                        d = e
                        break
                if d:
                    _bad(w, "a row of the walk carries another device's data", row=y.identity, field=d[0], shown=repr(d[1]), want=repr(d[2]))
        invs = p.inverters
        if len(invs) != len(us):
            _bad(w, "another number of inverters than there are", shown=len(invs), want=len(us))
        else:
            for k, (x, u) in enumerate(zip(invs, us)):
                d = graph.unit_differs(x, u)
                if d:
                    _bad(w, "an inverter of the plant is shown with other data", index=k, field=d[0], shown=repr(d[1]), want=repr(d[2]))
        idx = {k: (v.data_source, v.serial_number) for k, v in p.serial_index.items()}
        want = {u.serial: (u.source, u.serial) for u in us if u.serial}
        if idx != want:
            _bad(w, "the serial index does not list the inverters", shown=repr(idx), want=repr(want))
    w.extra["looks"] = w.extra.get("looks", 0) + 1
    w.extra["rows"] = w.extra.get("rows", 0) + len(rows)
    for x in rows:
        key = f"{x.kind}{'/' + x.source if x.source else ''}{'' if x.valid else ' (invalid)'}"
        w.extra.setdefault("kinds", {})[key] = w.extra.setdefault("kinds", {}).get(key, 0) + 1


async def _look(w, cl, op, rec):
    look(w, cl, op, rec)


async def direct(w, cl, op, rec):
    k = op.get("k", 1)
    if len(w.clients) > k:
        w.extra.setdefault("direct", []).extend(w.clients[k].plant.register_caches.values())
        w.clients[0].plant.add_direct_source(w.clients[k].plant.register_caches)


def build(plan):
    plan = dict(plan)
    plan["faults"] = sorted(plan.get("faults", []) + p30.expand(plan, _poke(plan)), key=lambda f: f.get("at", 0))
    w = World(plan)
    how = plan.get("how")
    caps = None
    if how == "preset":
        spec = plan["dongles"][0]
        caps = Topology(spec["topo"], spec["tseed"]).expected_caps()
    elif how == "odd":
        caps = plan["caps"]

    def setup(w):
        if caps is not None:
            w.clients[0].plant.capabilities = w.mk_caps(caps)
    w.extra["setup"] = setup
    w.extra["calls"] = {"keep": keeper, "look": _look, "direct": direct}
    return w


def check(w):
    return list(w.violations)


def nontrivial(w):
    return w.extra.get("looks", 0) > 0


def probes(w):
    return {"looks": w.extra.get("looks", 0), "rows": w.extra.get("rows", 0), **{f"rows: {k}": v for k, v in w.extra.get("kinds", {}).items()}}
