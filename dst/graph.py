"""The topology walk a plant must show (rows, identities, ownership), worked out without the library."""
from . import decode
from .decode import battery, inverter, is_three, managed, plain, specific, text


def good(s):
    return bool(s) and len(s) == 10 and s.isalnum() and s == s.upper()


def own_serial(caps, caches, envelope):
    order = []
    if caps and caps["inverter_address"] in (0x11, 0x31):
        order.append(caps["inverter_address"])
    for a in order + [0x11]:
        words = [caches.get(a, {}).get(("HR", n)) for n in range(13, 18)]
        if None not in words and good(text(words)):
            return text(words)
    return envelope


class Row:
    def __init__(self, identity, kind, parent, want, serial=None, fw=None, valid=True, root=False, source=None):
        self.identity, self.kind, self.parent, self.want = identity, kind, parent, want
        self.serial, self.fw, self.valid, self.root, self.source = serial, fw, valid, root, source


class Unit:
    """What one unified inverter must show."""

    def __init__(self, direct=None, summary=None, packs=0, stacks=0, modules=0):
        self.direct, self.summary = direct, summary  # direct: decode.inverter(...); summary: managed() tuple
        self.packs, self.stacks, self.modules = packs, stacks, modules
        self.source = "merged" if direct and summary else "direct" if direct else "ems_rollup"
        self.serial = (direct and direct[1]["serial_number"]) or (summary[0] if summary else "")

    def value(self, name):
        d = self.direct[1].get(name) if self.direct else None
        if d is None and self.summary:
            d = dict(zip(("serial_number", "status", "p_inverter_out", "battery_soc", "t_inverter_heatsink"), self.summary))[name]
        return d


def packs(caps, caches):
    if caps:
        return [(a, battery(caches.get(a, {}))) for a in caps["lv_battery_addresses"]]
    out = []
    for a in range(0x32, 0x38):
        b = battery(caches.get(a, {}))
        if not good(b[1]["serial_number"]):
            break
        out.append((a, b))
    return out


def _stacks(caps, caches):
    out, nxt = [], 0x50
    for o, n in (caps["bcu_stacks"] if caps else ()):
        bmus = []
        for k in range(n):
            v, want = plain("Bmu", caches.get(nxt + k, {}))
            want["bmu_index"] = k
            bmus.append((v, want))
        out.append((0x70 + o, plain("Bcu", caches.get(0x70 + o, {})), bmus))
        nxt += n
    return out


def _modules(caps, caches):
    out = []
    for a in (caps["aio_battery_module_addresses"] if caps else ()):
        if a in caches:
            v, want = plain("AioBatteryModule", caches[a])
            want["module_address"] = a
            out.append((a, (v, want)))
    return out


def main_view(caps, caches):
    a = caps["inverter_address"] if caps else 0x11
    return inverter(caches.get(a, {}), is_three(caps["device_type"]) if caps else False)


def units(caps, caches, directs):
    """One Unit per inverter, in order."""
    if not caps or caps["device_type"] not in ("EMS", "EMS_COMMERCIAL"):
        return [Unit(main_view(caps, caches), None, len(packs(caps, caches)), len(caps["bcu_stacks"]) if caps else 0, len(_modules(caps, caches)))]
    mine = {}
    for c in directs:
        dtc = c.get(("HR", 0))
        nm = None if dtc is None else specific(f"{dtc:04x}", c.get(("HR", 21)) or 0)
        if nm is None:
            continue
        v = inverter(c, is_three(nm))
        if v[1]["serial_number"]:
            mine[v[1]["serial_number"]] = v
    rows = managed(caches.get(caps["inverter_address"], {}))
    out = [Unit(mine.get(s[0]), s) for s in rows]
    return out + [Unit(v) for k, v in mine.items() if k not in {s[0] for s in rows}]


def walk(caps, caches, envelope, directs):
    me = own_serial(caps, caches, envelope)
    dev = caps["device_type"] if caps else None
    us = units(caps, caches, directs)
    main = main_view(caps, caches)[1]
    at = caps["inverter_address"] if caps else 0x11
    rows = []
    if dev == "GATEWAY":
        g = plain("GatewayV1", caches.get(at, {}))
        root = Row(me, "gateway", None, g, me or None, g[1]["software_version"], root=True)
    elif dev in ("EMS", "EMS_COMMERCIAL"):
        root = Row(me, "ems", None, plain("Ems", caches.get(at, {})), me or None, main["firmware_version"], root=True)
        for u in us:
            s = u.serial
            rows.append(Row(s + "_managed" if s and not u.direct else s, "inverter", me, u, s or None, u.direct and u.direct[1]["firmware_version"], bool(s), source=u.source))
    else:
        root = Row(me, "inverter", None, us[0], me or None, us[0].direct[1]["firmware_version"], root=True, source="direct")
    for n, (_, b) in enumerate(packs(caps, caches), 1):
        s = b[1]["serial_number"]
        s = s if good(s) else None
        fw = b[1]["bms_firmware_version"]
        rows.append(Row(s or f"{me}_battery_{n}", "battery", me, b, s, None if fw is None else str(fw), s is not None))
    blank = (None, "", " " * 10)
    for a, m in _modules(caps, caches):
        s = m[1]["serial_number"]
        s = None if s in blank else s
        rows.append(Row(s or f"{me}_module_{a}", "battery_module", me, m, s, None, s is not None))
    for a, bcu, bmus in _stacks(caps, caches):
        v = bcu[1]["pack_software_version"]
        there = v not in blank and bool(v.strip("0"))
        sid = f"{me}_hvstack_0x{a:02x}"
        rows.append(Row(sid, "hv_stack", me, bcu, (bcu[1]["serial_number"] or None) if there else None, v, there))
        for k, m in enumerate(bmus if not caps["aio_battery_module_addresses"] else (), 1):
            s = m[1]["serial_number"]
            s = None if s in blank else s
            rows.append(Row(s or f"{sid}_bmu_{k}", "battery_module", sid, m, s, None, s is not None))
    for a in (caps["meter_addresses"] if caps else ()):
        m = plain("Meter", caches.get(a, {}))
        rows.append(Row(f"{me}_meter_{a}", "meter", me, m, None, None, m[1]["v_phase_1"] not in (None, 0)))
    return [root] + sorted(rows, key=lambda x: (x.kind, x.identity)), us


def unit_differs(got, u):
    """First disagreement between a unified inverter and a Unit, or None."""
    if got is None:
        return "missing", None, u.source
    if got.data_source != u.source or got.is_blinded != (u.direct is None):
        return "data_source", got.data_source, u.source
    if got.serial_number != u.serial:
        return "serial_number", got.serial_number, u.serial
    for k in ("status", "p_inverter_out", "battery_soc", "t_inverter_heatsink"):
        w = u.value(k)
        if not decode.agree("Ems", k, getattr(got, k), w):
            return k, getattr(got, k), w
    for k, n in (("batteries", u.packs), ("hv_stacks", u.stacks), ("battery_modules", u.modules)):
        if len(getattr(got, k)) != n:
            return k, len(getattr(got, k)), n
    if u.direct:
        if type(got.direct).__name__ != u.direct[0]:
            return "direct", type(got.direct).__name__, u.direct[0]
        for d in decode.compare(got.direct, u.direct, "direct"):
            return d
    elif got.direct is not None:
        return "direct", "present", None
    if u.summary:
        s = got.summary
        for k, w in zip(("serial_number", "status", "p_inverter_out", "battery_soc", "t_inverter_heatsink"), u.summary):
            if not decode.agree("Ems", k, getattr(s, k), w):
                return "summary." + k, getattr(s, k), w
    elif got.summary is not None:
        return "summary", "present", None
    return None
