"""What each typed view must show for given stored registers, worked out without the library (register table: fields.json)."""
import datetime as dt
import json
import os

from .topo import THREE_PHASE

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "fields.json")) as _f:
    _D = json.load(_f)
TABLES, ENUMS = _D["tables"], _D["enums"]
FIELDS = {}
for _n, _v in _D["fields"].items():
    if ":" not in _n:
        FIELDS[_n] = {k: (x[0], x[1], tuple((r[:2], int(r[2:])) for r in x[2].split()), x[3], x[4]) for k, x in _v.items()}
FIELDS["ThreePhaseInverter"] = {k: v for k, v in {**FIELDS["SinglePhaseInverter"], **FIELDS["ThreePhaseInverter"]}.items()
                                if k not in _D["fields"]["ThreePhaseInverter:drop"]}
FIELDS["GatewayV2"] = {**FIELDS["GatewayV1"], **FIELDS["GatewayV2"]}
FALLBACK = {"WorkMode": "INITIALISING", "State": "STATIC", "BatteryMaintenance": "OFF", "MeterStatus": "DISABLED"}  # label of an unknown code
RAW_ENUMS = {"Battery", "Ems", "GatewayV1", "GatewayV2", "LvBcu", "Meter", "MeterProduct"}  # views that show codes rather than labels
DIGITS = {"deci": 1, "centi": 2, "milli": 3, "pf": 4, "pf_signed": 4, "uint16": 0, "int16": 0, "uint32": 0, "int32": 0, "duint8": 0, "bitfield": 0, "negate": 0}
SCALE = {"deci": 10, "centi": 100, "milli": 1000}
COARSE = {"2": "HYBRID", "3": "AC", "4": "HYBRID_3PH", "5": "EMS", "6": "AC_3PH", "7": "GATEWAY", "8": "ALL_IN_ONE"}
SPECIFIC = {"21": "POLAR", "41": "AIO_COMMERCIAL", "51": "EMS_COMMERCIAL", "81": "HYBRID_HV_GEN3", "82": "ALL_IN_ONE_HYBRID", "83": "HYBRID_GEN4"}


class Label(str):
    """An enum member, by name; .code is its number."""
    code = None


def label(enum, code):
    for n, v in ENUMS[enum].items():
        if v == code:
            x = Label(n)
            x.code = v
            return x
    if enum in FALLBACK:
        return label(enum, ENUMS[enum][FALLBACK[enum]])
    return None


def text(words):
    return b"".join(w.to_bytes(2, "big") for w in words).decode("latin1").replace("\0", "").upper()


def _bits(v, names):
    return [names[str(i)] for i in range(32) if v >> i & 1 and str(i) in names]


def _one(conv, x):
    name, args = (conv[0], conv[1:]) if isinstance(conv, list) else (conv, [])
    v = x[0]
    if name.startswith("enum:"):
        if name == "enum:Model":
            n = COARSE.get(v[0])
            y = n and Label(n)
            return y or None
        return label(name[5:], v)
    if name in SCALE:
        return v / SCALE[name]
    if name == "uint16":
        return v
    if name in ("int16", "pf_signed"):
        v = v - 65536 if v >= 32768 else v
        return v / 10000 if name == "pf_signed" else v
    if name == "pf":
        return round(v / 10000 - 1, 4)
    if name in ("uint32", "int32"):
        v = x[0] * 65536 + x[1]
        return v - (1 << 32) if name == "int32" and v >> 31 else v
    if name == "duint8":
        return (v // 256, v % 256)[args[0]]
    if name == "bool":
        return v != 0
    if name in ("serial", "string"):
        return text(x)
    if name == "negate":
        return -v
    if name == "hex":
        return format(v, f"0{args[0] if args else 4}x")
    if name == "fstr":
        return format(v, args[0])
    if name == "bitfield":  # most significant bit is number 0
        lo, hi = args
        return int(format(v, "016b")[lo:hi + 1], 2)
    if name == "timeslot":
        if 60 in x:
            return None
        hm = [divmod(k, 100) for k in x]
        if any(h > 23 or m > 59 for h, m in hm):
            return None
        return tuple(dt.time(h, m) for h, m in hm)
    if name == "datetime":
        try:
            return dt.datetime(2000 + x[0], *x[1:])  # noqa: DTZ001
        except ValueError:
            return None
    if name == "firmware_version":
        return f"D0.{x[0]}-A0.{x[1]}"
    if name == "gateway_version":
        return b"".join(w.to_bytes(2, "big") for w in x[:2]).decode("latin1").replace("\0", "") + "".join(str(b) for w in x[2:] for b in divmod(w, 256))
    if name == "nominal_voltage":
        return {0: 230, 1: 208, 2: 240}.get(v)
    if name == "nominal_frequency":
        return {0: 50, 1: 60}.get(v)
    if name in ("inverter_fault_code", "gateway_fault_code"):
        return _bits(v, TABLES[name])[::-1]
    if name == "charger_warning_code":
        return _bits(v, TABLES[name])
    if name == "inverter_fault_code2":
        return _bits(v, TABLES[name][args[0]])
    if name == "charge_status_from":
        return label("ChargeStatus", v)
    if name == "bcu_status_from":
        return label("BcuStatus", v)
    if name == "ems_inverter_suspected_status":
        y = {0: "ABSENT", 2: "ONLINE"}.get(v)
        if y is None:
            return None
        z = Label(y)
        z.code = v
        return z
    raise ValueError(name)


def field(view, name, c):
    """Expected value of a register-backed field; c = {(type, index): value}."""
    pre, post, regs, lo, hi = FIELDS[view][name]
    x = [c.get(r) for r in regs]
    if None in x:
        return None
    v = x
    for conv in (pre, post):
        if conv is not None and v is not None:
            v = _one(conv, v if isinstance(v, list) else [v])
    if v is not None and (lo is not None or hi is not None) and any(x):
        if lo is not None and v < lo or hi is not None and v > hi:
            return None
    return v


def raws(view, name):
    """Raw values around the bounds of a field, for generators: [(register, value), ...] alternatives."""
    pre, post, regs, lo, hi = FIELDS[view][name]
    out = []
    scale = 1
    for conv in (pre, post):
        n = conv[0] if isinstance(conv, list) else conv
        scale *= SCALE.get(n, 10000 if n in ("pf", "pf_signed") else 1)
    for b in (lo, hi):
        if b is not None:
            k = round(b * scale) + (10000 if pre == "pf" else 0)
            for d in (-1, 0, 1):
                v = k + d
                if len(regs) == 2:
                    v &= 0xFFFFFFFF
                    out.append([(regs[0], v >> 16), (regs[1], v & 0xFFFF)])
                else:
                    out.append([(regs[0], v & 0xFFFF)])
    if out and len(regs) == 1:  # ordinary readings as often as limits
        k = round(((lo or 0) + (hi if hi is not None else 2 * abs(lo) + 50)) / 2 * scale) + (10000 if pre == "pf" else 0)
        out += [[(regs[0], (k + d) & 0xFFFF)] for d in (0, 1, 7, -3)]
    e = {"charge_status_from": "ChargeStatus", "bcu_status_from": "BcuStatus"}.get(str(post or pre), str(post or pre).partition(":")[2])
    codes = sorted(v for v in ENUMS.get(e, {}).values() if isinstance(v, int))
    for k in codes + [codes[-1] + 1] if codes else ():
        out.append([(regs[-1], k)])
    if "duint8" in str(pre) and hi is not None:
        out = [[(regs[0], (a << 8 | b))] for a in (int(hi), int(hi) + 1, 0) for b in (int(hi), int(hi) + 1, 1)]
    if pre == "timeslot":
        for v in (0, 1, 59, 60, 100, 2359, 2360, 2400, 1260):
            out.append([(regs[len(out) % 2], v)])
    if pre == "bool":
        out += [[(regs[0], k)] for k in (0, 1, 2, 0x100, 0xFFFF)]
    for r in regs:
        out += [[(r, v)] for v in (1, 0x7FFF, 0x8000, 0xFFFF)]
    if len(regs) <= 2:
        out += [[(r, 0) for r in regs]] * 2
    return out


def specific(dtc, fw):
    """Name of the exact model, or None when the device type code is unknown."""
    if dtc[:2] == "20":
        return {3: "HYBRID_GEN3", 8: "HYBRID_GEN2", 9: "HYBRID_GEN2"}.get(fw // 100, "HYBRID_GEN1")
    return SPECIFIC.get(dtc[:2]) or COARSE.get(dtc[0])


def _sum(*xs):
    return None if None in xs else sum(xs)


def _neg(x):
    return None if x is None else -x


def _pos(x):
    return None if x is None else max(0, x)


BANDS = {"_1": "_trip", "_2": "_reconnect", "_3": "_grid"}


def inverter(c, three):
    """Everything the inverter view must show."""
    view = "ThreePhaseInverter" if three else "SinglePhaseInverter"
    f = {k: field(view, k, c) for k in FIELDS[view]}
    dtc, fw, model = f["device_type_code"], f["arm_firmware_version"], f["model"]
    spec = specific(dtc, fw) if dtc is not None and fw is not None else None
    out = {}
    if not three:
        f["e_inverter_out_today"] = f["e_inverter_out_total"] = None
        if spec in ("AC", "ALL_IN_ONE"):
            for a, b in (("e_pv_generation_today", "e_inverter_out_today"), ("e_pv_generation_total", "e_inverter_out_total")):
                f[b], f[a] = f[a], None
            for k in ("v_pv1", "v_pv2", "i_pv1", "i_pv2"):
                f[k] = None
    out.update(f)
    ah = f["battery_capacity_ah"]
    volt = {"ALL_IN_ONE": 307.0, "HYBRID_3PH": 76.8, "AC_3PH": 76.8}.get(model, 51.2)
    out["battery_capacity_kwh"] = None if ah is None or model is None else ah * volt / 1000
    if dtc is None or fw is None:
        bp = None
    elif dtc[:2] == "20":
        bp = 3600 if fw // 100 in (3, 8, 9) else 2600
    else:
        bp = TABLES["battery_power"].get(dtc)
    out["battery_max_power"] = bp
    out["inverter_max_power"] = TABLES["rated_power"].get(dtc)
    out["is_ac_coupled"] = model in ("AC", "AC_3PH")
    out["work_time_total"] = f["work_time_total_hours"]
    out["enable_standard_self_consumption_logic"] = f["enable_inverter_parallel_mode"]
    out["p_pv()"] = _sum(f["p_pv1"], f["p_pv2"])
    if three:
        out["e_pv_day()"] = out["e_inverter_out_day"] = f["e_pv_today"]
        out["grid_import_power"], out["grid_export_power"] = f["p_meter_import"], f["p_meter_export"]
        out["battery_charge_power"], out["battery_discharge_power"] = f["p_battery_charge"], f["p_battery_discharge"]
        out["p_battery"] = _sum(f["p_battery_discharge"], _neg(f["p_battery_charge"]))
        out["e_battery_throughput"] = _sum(f["e_battery_charge_total"], f["e_battery_discharge_total"])
        out["battery_power_cutoff"] = f["battery_reserve_soc"]
        stems = ["v_grid_low_limit", "v_grid_high_limit", "f_grid_low_limit", "f_grid_high_limit"]
        times = ["time_grid_low_voltage_limit", "time_grid_high_voltage_limit", "time_grid_low_freq_limit", "time_grid_high_freq_limit"]
    else:
        out["e_pv_day()"] = _sum(f["e_pv1_day"], f["e_pv2_day"])
        for d, m in ((d, m) for d in ("charge", "discharge") for m in ("today", "total")):
            src = {("HYBRID_GEN1", "today"): "alt2", ("HYBRID_GEN2", "today"): "alt1", ("AC", "today"): "alt1", ("ALL_IN_ONE", "today"): "alt1",
                   ("HYBRID_GEN1", "total"): "alt1"}.get((spec, m))
            out[f"e_battery_{d}_{m}"] = f[f"e_battery_{d}_{m}_{src}"] if src else None
        out["grid_import_power"], out["grid_export_power"] = _pos(_neg(f["p_grid_out"])), _pos(f["p_grid_out"])
        out["battery_charge_power"], out["battery_discharge_power"] = _pos(_neg(f["p_battery"])), _pos(f["p_battery"])
        pv, gi, go, ac = f["e_pv_generation_today"], f["e_grid_in_day"], f["e_grid_out_day"], f["e_ac_charge_today"]
        out["e_consumption_today"] = _sum(pv, gi, _neg(go), _neg(ac))
        out["e_self_consumption_today"] = _pos(_sum(pv, _neg(go)))
        out["e_self_consumption_total"] = _pos(_sum(f["e_pv_generation_total"], _neg(f["e_grid_out_total"])))
        bc = out["e_battery_charge_today"]
        out["e_pv_direct_today"] = None if None in (pv, go, bc, ac) else max(0, pv - go - max(0, bc - ac))
        out["fault_code"] = None if None in (f["inverter_fault_code"], f["inverter_warning_code"]) else f["inverter_fault_code"] + f["inverter_warning_code"]
        out["e_inverter_out_day"] = f["e_inverter_out_today"] if f["e_inverter_out_today"] is not None else f["e_pv_generation_today"]
        stems = ["v_ac_low_limit", "v_ac_high_limit", "f_ac_low_limit", "f_ac_high_limit"]
        times = ["t_ac_low_voltage", "t_ac_high_voltage", "t_ac_low_freq", "t_ac_high_freq"]
    for s in stems + times:
        for a, b in BANDS.items():
            if s in times and a == "_3":
                continue
            out[s + a] = f[s + b]
    return view, out


def battery(c):
    out = {k: field("Battery", k, c) for k in FIELDS["Battery"]}
    cap, n, v = out["cap_remaining"], out["num_cells"], out["v_out"]
    volt = n * 3.2 if n else v
    out["remaining_energy_nominal_wh"] = None if cap is None or volt is None else cap * volt
    out["remaining_energy_measured_wh"] = None if cap is None or v is None else cap * v
    return "Battery", out


def plain(view, c):
    out = {k: field(view, k, c) for k in FIELDS[view]}
    if view == "Bcu":
        out["cluster_cell_voltage"], out["cluster_cell_temperature"] = out["total_cell_count"], out["total_temperature_sensor_count"]
    return view, out


ROUNDED = {"remaining_energy_nominal_wh", "remaining_energy_measured_wh"}


def agree(view, name, got, want):
    import enum
    if isinstance(want, Label):
        if isinstance(got, enum.Enum):
            return got.name == want and (want.code is None or got.value == want.code)
        return view in RAW_ENUMS and want.code is not None and got == want.code
    if want is None or got is None:
        return got is None and want is None
    if isinstance(want, bool):
        return got is want
    if name in ROUNDED:
        return isinstance(got, int) and abs(got - want) <= 0.51
    if isinstance(want, (int, float)):
        return isinstance(got, (int, float)) and not isinstance(got, bool) and abs(got - want) < 1e-6 + 1e-9 * abs(want)
    if isinstance(want, tuple):
        return (getattr(got, "start", None), getattr(got, "end", None)) == want
    if isinstance(want, list):
        return isinstance(got, list) and sorted(got) == sorted(want)
    return got == want


def compare(obj, expected, where):
    """Yield (field, shown, expected) for each disagreement between a view object and what it must show."""
    view, want = expected
    for k, x in want.items():
        got = getattr(obj, k[:-2])() if k.endswith("()") else getattr(obj, k)
        if not agree(view, k, got, x):
            yield f"{where}.{k}", got, x


def managed(c):
    """The inverters an EMS rollup lists: (serial, status code, power, soc, temperature)."""
    out = []
    for n in (1, 2, 3, 4):
        f = lambda k: field("Ems", f"inverter_{n}_{k}", c)  # noqa: B023, E731
        s = (f("serial_number") or "").strip("\0 ")
        if s:
            out.append((s, f("status"), f("power"), f("soc"), f("temp")))
    return out


def is_three(model):
    return model in THREE_PHASE


def views(p, caps, caches):
    """Every (path, view object, expected) of a plant; caps as a dict or None."""
    e = {}
    ia = caps["inverter_address"] if caps else 0x11
    dev = caps["device_type"] if caps else None
    yield "inverter", p.inverter, inverter(caches.get(ia, e), is_three(dev))
    if not caps:
        for n, b in enumerate(p.batteries):
            yield f"batteries[{n}]", b, battery(caches.get(0x32 + n, e))
        return
    for a, b in zip(caps["lv_battery_addresses"], p.batteries):
        yield f"battery 0x{a:02x}", b, battery(caches.get(a, e))
    for a, m in p.meters.items():
        yield f"meters[{a}]", m, plain("Meter", caches.get(a, e))
    nxt = 0x50
    for s, (o, n) in zip(p.hv_stacks, caps["bcu_stacks"]):
        yield f"stack 0x{0x70 + o:02x}.bcu", s.bcu, plain("Bcu", caches.get(0x70 + o, e))
        for k, m in enumerate(s.bmus):
            v, want = plain("Bmu", caches.get(nxt + k, e))
            want["bmu_index"] = k
            yield f"bmu 0x{nxt + k:02x}", m, (v, want)
        nxt += n
    for m in p.aio_battery_modules:
        v, want = plain("AioBatteryModule", caches.get(m.module_address, e))
        yield f"aio module 0x{m.module_address:02x}", m, (v, want)
    a = caps["lv_bcu_address"]
    if p.lv_bcu is not None:
        yield "lv_bcu", p.lv_bcu, plain("LvBcu", caches.get(a, e))
    if dev in ("EMS", "EMS_COMMERCIAL"):
        v, want = plain("Ems", caches.get(ia, e))
        st = want["plant_status"]
        if st is not None:
            want["plant_enabled"] = bool(st.code)
        yield "ems", p.ems, (v, want)
    if dev == "GATEWAY":
        yield "gateway", p.gateway, plain("GatewayV1", caches.get(ia, e))
