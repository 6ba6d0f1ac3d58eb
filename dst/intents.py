"""Independent statement of what each setting means: the registers it must leave on the device, and the properties that show it back."""
from .perms import permitted
from .topo import AC_CONFIG, EMS, EXTENDED, THREE_PHASE, pub_model


class Refuse(Exception):
    """Arguments outside what the setting documents."""


PAIRS_3_10 = {"charge": [(246 + 3 * k, 247 + 3 * k) for k in range(8)], "discharge": [(276 + 3 * k, 277 + 3 * k) for k in range(8)]}
LAYOUT = {
    "single": {"charge": [(94, 95), (31, 32)], "discharge": [(56, 57), (44, 45)]},
    "extended": {"charge": [(94, 95), (31, 32)] + PAIRS_3_10["charge"], "discharge": [(56, 57), (44, 45)] + PAIRS_3_10["discharge"]},
    "three": {"charge": [(1113, 1114), (1115, 1116)] + PAIRS_3_10["charge"], "discharge": [(1118, 1119), (1120, 1121)] + PAIRS_3_10["discharge"]},
    "ems": {"discharge": [(2044 + 3 * k, 2045 + 3 * k) for k in range(3)], "charge": [(2053 + 3 * k, 2054 + 3 * k) for k in range(3)],
            "export": [(2062 + 3 * k, 2063 + 3 * k) for k in range(3)]},
    "smart": {"load": [(554 + 2 * k, 555 + 2 * k) for k in range(10)]},
}


def layout(model, fw):
    """Slot layout of an inverter."""
    if model in THREE_PHASE:
        return "three"
    if model in EXTENDED and (model != "HYBRID_GEN3" or (fw is not None and fw > 302)):
        return "extended"
    return "single"


def whole(x, lo, hi):
    if isinstance(x, bool) or not isinstance(x, (int, float)) or x != int(x) or not lo <= x <= hi:
        raise Refuse
    return int(x)


def scaled(x, scale, lo, hi):
    """x in units of 1/scale, exactly."""
    from decimal import Decimal
    if isinstance(x, bool) or not isinstance(x, (int, float)):
        raise Refuse
    d = Decimal(str(x)) * scale
    if d != int(d) or not lo * scale <= d <= hi * scale:
        raise Refuse
    return int(d)


def hhmm(t):
    return 0 if t is None else int(t[1:3]) * 100 + int(t[4:6])


def times(slot):
    return (0, 0) if slot is None else (hhmm(slot[0]), hhmm(slot[1]))


GRID = [("v_ac_low_limit_trip", "v"), ("v_ac_high_limit_trip", "v"), ("f_ac_low_limit_trip", "f"), ("f_ac_high_limit_trip", "f"),
        ("t_ac_low_voltage_trip", "t"), ("t_ac_high_voltage_trip", "t"), ("t_ac_low_freq_trip", "t"), ("t_ac_high_freq_trip", "t"),
        ("v_ac_low_limit_reconnect", "v"), ("v_ac_high_limit_reconnect", "v"), ("f_ac_low_limit_reconnect", "f"), ("f_ac_high_limit_reconnect", "f"),
        ("t_ac_low_voltage_reconnect", "t"), ("t_ac_high_voltage_reconnect", "t"), ("t_ac_low_freq_reconnect", "t"), ("t_ac_high_freq_reconnect", "t"),
        ("v_ac_low_limit_grid", "v"), ("v_ac_high_limit_grid", "v"), ("f_ac_low_limit_grid", "f"), ("f_ac_high_limit_grid", "f"), ("v_ac_10min_protect", "v")]
GRID_UNIT = {"v": (10, 0, 500), "f": (100, 40, 70), "t": (100, 0, 655.35)}
DESTRUCTIVE = {"reset_energy_totals": 162, "three_phase_factory_reset": 1016, "enable_black_start": 5003, "restore_factory_defaults": 5004}
INST_BOOL = {"set_anti_islanding_detection": 115, "set_grid_import_limit_enabled": 102, "set_enable_plant_mode": 300, "set_enable_micro_grid": 332,
             "set_enable_ev_charger": 333, "set_enable_generator": 343, "set_enable_smart_load": 540, "set_enable_export_limit_3ph": 1103,
             "set_enable_import_limit_3ph": 1131, "set_peak_shaving_export_limit_enabled": 20000, "set_peak_shaving_enabled": 20002}
INST_NUM = {"set_battery_nominal_power": (308, 0, 65535), "set_battery_nominal_current": (309, 0, 65535), "set_battery_max_charge_pct": (310, 20, 100),
            "set_ev_charger_soc_limit": (336, 0, 100), "set_generator_start_soc": (344, 0, 100), "set_generator_stop_soc": (345, 0, 100),
            "set_smart_load_control_soc": (541, 50, 100), "set_general_load_control_soc": (543, 50, 100), "set_generator_control_soc": (544, 10, 90)}
INST_SCALED = {"set_" + n: (63 + k,) + GRID_UNIT[u] for k, (n, u) in enumerate(GRID)}

NUM = {"set_charge_target_soc": (116, 4, 100), "set_battery_soc_reserve": (110, 4, 100), "set_shallow_charge": (110, 4, 100),
       "set_battery_charge_limit": (111, 0, 100), "set_battery_discharge_limit": (112, 0, 100), "set_battery_power_reserve": (114, 4, 100),
       "set_active_power_rate": (50, 0, 100), "set_battery_charge_limit_ac": (313, 1, 100), "set_battery_discharge_limit_ac": (314, 1, 100),
       "set_battery_reserve_soc": (1078, 4, 100), "set_battery_soc_reserve_3ph": (1109, 4, 100), "set_charge_target_soc_3ph": (1111, 4, 100),
       "set_ems_export_power_limit": (2071, 0, 65535)}
BOOL = {"set_enable_charge": 96, "set_enable_discharge": 59, "set_enable_rtc": 166, "set_enable_eps": 317, "set_ac_charge": 1112,
        "set_force_charge": 1123, "set_force_discharge": 1122, "set_ems_plant": 2040}
FIXED = {"disable_charge_target": {20: 0, 116: 100}, "disable_charge_target_3ph": {20: 0, 1111: 100}, "set_inverter_reboot": {163: 100},
         "enable_charge": {96: 1}, "disable_charge": {96: 0}, "enable_discharge": {59: 1}, "disable_discharge": {59: 0},
         "set_discharge_mode_max_power": {27: 0}, "set_discharge_mode_to_match_demand": {27: 1}, "set_mode_dynamic": {27: 1, 110: 4, 59: 0}}
TARGET = {"ems_charge": 2055, "ems_discharge": 2046, "ems_export": 2064}
# the three-phase view's own registers
THREE_VIEW = {"set_enable_charge": 1112, "set_battery_soc_reserve": 1109, "set_charge_target_soc": 1111}

VIEW_ALL = ["disable_charge_target", "set_charge_target_enabled", "set_charge_target", "set_charge_target_soc", "set_enable_charge", "set_enable_discharge",
            "set_inverter_reboot", "set_calibrate_battery_soc", "set_active_power_rate", "set_enable_rtc", "set_system_date_time", "set_export_priority",
            "set_enable_eps", "set_discharge_mode_max_power", "set_discharge_mode_to_match_demand", "set_battery_soc_reserve", "set_battery_charge_limit",
            "set_battery_discharge_limit", "set_battery_power_reserve", "set_mode_dynamic", "set_mode_storage"]
VIEW_SLOTS = ["set_charge_slot_start", "set_charge_slot_end", "set_discharge_slot_start", "set_discharge_slot_end", "set_charge_slot", "reset_charge_slot",
              "set_discharge_slot", "reset_discharge_slot"]
VIEW_3PH = ["set_ac_charge", "set_force_charge", "set_force_discharge", "set_battery_reserve_soc"]
VIEW_EMS = ["set_ems_plant", "set_ems_export_power_limit"] + \
    [f"set_ems_{k}_{w}" for k in ("charge", "discharge", "export") for w in ("slot", "slot_start", "slot_end", "target_soc")] + \
    ["set_export_slot", "set_export_slot_start", "set_export_slot_end"]
MODULE = VIEW_ALL + VIEW_SLOTS + VIEW_3PH + VIEW_EMS + ["set_shallow_charge", "enable_charge", "disable_charge", "enable_discharge", "disable_discharge",
    "disable_charge_target_3ph", "set_battery_soc_reserve_3ph", "set_charge_target_enabled_3ph", "set_charge_target_3ph", "set_charge_target_soc_3ph",
    "set_battery_charge_limit_ac", "set_battery_discharge_limit_ac", "set_battery_pause_mode", "set_pause_slot", "set_pause_slot_start", "set_pause_slot_end",
    "set_smart_load_slot", "set_smart_load_slot_start", "set_smart_load_slot_end"] + \
    [f"{v}_{k}_slot_{n}" for v in ("set", "reset") for k in ("charge", "discharge") for n in (1, 2)]
INSTALL = sorted(INST_BOOL) + sorted(INST_NUM) + sorted(INST_SCALED) + sorted(DESTRUCTIVE) + ["set_export_power_rate"]


def writes(target, fn, a, kw, lay):
    """{register: value} the setting stands for; Refuse when its arguments are not acceptable. a: JSON arguments, lay: slot layout in force."""
    three = target == "inv" and lay == "three"
    if target == "ins":
        if fn in DESTRUCTIVE:
            if not kw.get("confirm"):
                raise Refuse
            return {DESTRUCTIVE[fn]: 1}
        if fn in INST_BOOL:
            return {INST_BOOL[fn]: int(a[0])}
        if fn in INST_NUM:
            reg, lo, hi = INST_NUM[fn]
            return {reg: whole(a[0], lo, hi)}
        if fn == "set_export_power_rate":
            return {1063: scaled(a[0], 10, 0, 100)}
        if not kw.get("confirm"):
            raise Refuse
        reg, s, lo, hi = INST_SCALED[fn]
        return {reg: scaled(a[0], s, lo, hi)}
    if fn in ("set_charge_target_enabled", "set_charge_target", "set_charge_target_enabled_3ph", "set_charge_target_3ph"):
        t = whole(a[0], 4, 100)
        p3 = three or fn.endswith("_3ph")
        return {(1112 if p3 else 96): 1, 20: int(t != 100), (1111 if p3 else 116): t}
    if fn == "set_calibrate_battery_soc":
        if a and a[0] not in (0, 1, 3):
            raise Refuse
        return {29: a[0] if a else 1}
    if fn == "set_export_priority":
        if isinstance(a[0], bool) or a[0] not in (0, 1, 2):
            raise Refuse
        return {311: a[0]}
    if fn == "set_battery_pause_mode":
        return {318: a[0]}
    if fn == "set_system_date_time":
        y, mo, d, h, mi, s = (int(a[0][k:k + n]) for k, n in ((1, 4), (6, 2), (9, 2), (12, 2), (15, 2), (18, 2)))
        if y < 2000:
            raise Refuse
        return {35: y - 2000, 36: mo, 37: d, 38: h, 39: mi, 40: s}
    if fn == "set_mode_dynamic":
        return {27: 1, (1109 if three else 110): 4, 59: 0}
    if fn == "set_mode_storage":
        a = list(a) + [None, False][len(a) - 1:] if a else [["T16:00", "T07:00"], None, False]
        s = LAYOUT[lay]["discharge"]
        out = {27: 0 if a[2] else 1, 59: 1}
        for k in (0, 1):
            out.update(zip(s[k], times(a[k])))
        return out
    if three and fn in THREE_VIEW:
        reg = THREE_VIEW[fn]
        return {reg: int(a[0])} if fn == "set_enable_charge" else {reg: whole(a[0], 4, 100)}
    if three and fn == "disable_charge_target":
        return {20: 0, 1111: 100}
    if fn in FIXED:
        return FIXED[fn]
    if fn in NUM:
        reg, lo, hi = NUM[fn]
        return {reg: whole(a[0], lo, hi)}
    if fn in BOOL:
        return {BOOL[fn]: int(a[0])}
    if fn.endswith("_target_soc"):
        k = whole(a[0], 1, 3)
        return {TARGET[fn[4:-11]] + 3 * (k - 1): whole(a[1], 0, 100)}
    # time slots
    name = fn.split("_", 1)[1]
    if name.startswith("ems_"):
        name, lay = name[4:], "ems"
    kind, _, rest = name.partition("_slot")
    if kind == "pause":
        pair = (319, 320)
        a = [1] + list(a)
    else:
        if kind == "export":
            lay = "ems"
        elif kind == "smart_load":
            lay, kind = "smart", "load"
        if rest in ("_1", "_2"):
            a, rest = [int(rest[1:])] + list(a), ""
        pairs = LAYOUT[lay][kind]
        pair = pairs[whole(a[0], 1, len(pairs)) - 1]
    if rest == "_start":
        return {pair[0]: hhmm(a[1])}
    if rest == "_end":
        return {pair[1]: hhmm(a[1])}
    return dict(zip(pair, times(None if fn.startswith("reset_") else a[1])))


def allowed(target, model, regs, installer):
    return all(g in installer for g in regs) if target == "ins" else all(g in permitted(model) for g in regs)


# -- what the typed views show of it ------------------------------------------------------------------------------------------
def _slot(v):
    if 60 in v:
        return None
    if any(x // 100 > 23 or x % 100 > 59 for x in v):
        return None
    return "%02d:%02d-%02d:%02d" % (v[0] // 100, v[0] % 100, v[1] // 100, v[1] % 100)


def _date(v):
    from datetime import datetime
    try:
        return datetime(v[0] + 2000, *v[1:]).isoformat()
    except ValueError:
        return None


DECODE = {"n": lambda v: v[0], "b": lambda v: bool(v[0]), "s": _slot, "d": _date, "x10": lambda v: round(v[0] / 10, 2), "x100": lambda v: round(v[0] / 100, 3)}
COMMON = {20: ("enable_charge_target", "b"), 27: ("battery_power_mode", "n"), 29: ("battery_calibration_stage", "n"), 50: ("active_power_rate", "n"),
          59: ("enable_discharge", "b"), 111: ("battery_charge_limit", "n"), 112: ("battery_discharge_limit", "n"),
          114: ("battery_discharge_min_power_reserve", "n"), 166: ("enable_rtc", "b")}
ONE = {96: ("enable_charge", "b"), 110: ("battery_soc_reserve", "n"), 116: ("charge_target_soc", "n"), 311: ("export_priority", "n"),
       313: ("battery_charge_limit_ac", "n"), 314: ("battery_discharge_limit_ac", "n"), 317: ("enable_eps", "b"), 102: ("grid_import_limit_enabled", "b"),
       300: ("enable_plant_mode", "b"), 308: ("battery_nominal_power", "n"), 309: ("battery_nominal_current", "n"), 310: ("battery_max_charge_pct", "n"),
       332: ("enable_micro_grid", "b"), 333: ("enable_ev_charger", "b"), 336: ("ev_charger_soc_limit", "n"), 343: ("enable_generator", "b"),
       344: ("generator_start_soc", "n"), 345: ("generator_stop_soc", "n")}
THREE = {1078: ("battery_reserve_soc", "n"), 1109: ("battery_soc_reserve", "n"), 1111: ("charge_target_soc", "n"), 1112: ("ac_charge_enable", "b"),
         1122: ("force_discharge_enable", "b"), 1123: ("force_charge_enable", "b"), 1063: ("export_power_rate", "x10"), 1103: ("enable_export_limit", "b")}


def shown(model, fw, reg):
    """(accessor, property, registers, decoding) that shows a register, or None."""
    if model in EMS:
        if reg == 2040:
            return "ems", "plant_enabled", (2040,), "b"
        if reg == 2071:
            return "ems", "export_power_limit", (2071,), "n"
        for kind, pairs in LAYOUT["ems"].items():
            for k, p in enumerate(pairs, 1):
                if reg in p:
                    return "ems", f"{kind}_slot_{k}", p, "s"
                if reg == p[1] + 1:
                    return "ems", f"{kind}_target_{k}", (reg,), "n"
        return None
    if 35 <= reg <= 40:
        return "inverter", "system_time", tuple(range(35, 41)), "d"
    if 63 <= reg <= 83:
        n, u = GRID[reg - 63]
        return "inverter", n, (reg,), "x10" if u == "v" else "x100"
    for kind, pairs in LAYOUT[layout(model, fw)].items():
        for k, p in enumerate(pairs, 1):
            if reg in p:
                return "inverter", f"{kind}_slot_{k}", p, "s"
    x = COMMON.get(reg) or (THREE if model in THREE_PHASE else ONE).get(reg)
    return ("inverter", x[0], (reg,), x[1]) if x else None


# -- generation ---------------------------------------------------------------------------------------------------------------
def _time(r):
    return "T%02d:%02d" % r.choice(((0, 0), (23, 59), (0, 59), (r.randrange(24), r.randrange(60)), (r.randrange(24), r.randrange(60)), (r.randrange(24), 0)))


def _slotarg(r, none=0.2):
    return None if r.random() < none else [_time(r), _time(r)]


def _num(r, lo, hi, bad):
    if bad:
        return r.choice((lo - 1, hi + 1, True, False, "50", None, lo + 0.5, hi - 0.25, -5, hi + 1000, 70000, [50], lo + 1.02, round(hi - 0.999, 3), lo + 0.0001))
    return r.choice((lo, hi, r.randrange(lo, hi + 1), r.randrange(lo, hi + 1), float(r.randrange(lo, hi + 1))))


def _scaledarg(r, scale, lo, hi, bad):
    if bad:
        return r.choice((lo - 0.1, hi + 0.5, True, False, "50", None, round(lo + 1 + 0.3 / scale, 4), round((lo + hi) / 2 + 0.51 / scale, 5), -1, hi * 2))
    return round(r.choice((lo, hi, r.randrange(int(lo * scale), int(hi * scale) + 1) / scale, r.randrange(int(lo * scale), int(hi * scale) + 1) / scale, r.randrange(int(lo), int(hi)))), 2)


def args(r, target, fn, lay, bad):
    """(args, kwargs) for a setting; with bad, something it must refuse (where anything is)."""
    if target == "ins":
        if fn in DESTRUCTIVE:
            return [], {} if bad else {"confirm": True}
        if fn in INST_BOOL:
            return [r.random() < 0.5], {}
        if fn in INST_NUM:
            return [_num(r, *INST_NUM[fn][1:], bad)], {}
        if fn == "set_export_power_rate":
            return [r.choice((-0.1, 100.1, 1000, -5))] if bad else [r.choice((0, 100, r.randrange(1001) / 10, r.randrange(101)))], {}
        unconf = bad and r.random() < 0.4
        return [_scaledarg(r, *INST_SCALED[fn][1:], bad and not unconf)], r.choice(({}, {"confirm": False})) if unconf else {"confirm": True}
    if fn.startswith("set_charge_target"):
        return [_num(r, 4, 100, bad) if r.random() < 0.8 or bad else 100], {}
    if fn == "set_calibrate_battery_soc":
        return r.choice(([2], [4], [-1])) if bad else r.choice(([], [0], [1], [3])), {}
    if fn == "set_export_priority":
        return [r.choice((True, False, 3, -1, 100)) if bad else r.randrange(3)], {}
    if fn == "set_battery_pause_mode":
        return [r.randrange(4)], {}
    if fn == "set_system_date_time":
        y = r.choice((1999, 1970, 1)) if bad else r.choice((2000, 2024, 2025, 2099, r.randrange(2000, 2200)))
        return ["D%04d-%02d-%02dT%02d:%02d:%02d" % (y, *r.choice(((1, 1, 0, 0, 0), (12, 31, 23, 59, 59), (2, 28, 1, 2, 3),
                                                                  (r.randrange(1, 13), r.randrange(1, 29), r.randrange(24), r.randrange(60), r.randrange(60)))))], {}
    if fn == "set_mode_storage":
        n = r.randrange(1 if target == "inv" else 0, 4)
        return ([_slotarg(r, 0), _slotarg(r, 0.4), r.random() < 0.5])[:n], {}
    if fn in FIXED:
        return [], {}
    if fn in NUM:
        return [_num(r, *NUM[fn][1:], bad)], {}
    if fn in BOOL:
        return [r.random() < 0.5], {}

    def idx(n, bad):
        return r.choice((0, n + 1, -1, True, 1.5, "1", None, 0.98, 2.001)) if bad else r.choice((1, n, r.randrange(1, n + 1), float(r.randrange(1, n + 1))))
    if fn.endswith("_target_soc"):
        w = bad and r.random() < 0.5
        return [idx(3, w), _num(r, 0, 100, bad and not w)], {}
    val = [] if fn.startswith("reset_") else [(_time(r) if r.random() < 0.8 else None) if fn.endswith(("_start", "_end")) else _slotarg(r)]
    if fn[-2:] in ("_1", "_2"):
        return val if fn.startswith("reset_") else [_slotarg(r, 0)], {}
    if fn.startswith("set_pause"):
        return val, {}
    n = 10 if "smart" in fn else 3 if "ems" in fn or "export" in fn else len(LAYOUT[lay]["charge"])
    return [idx(n, bad)] + val, {}
