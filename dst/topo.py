"""Simulated plant hardware: topologies, register contents, and what detection must report."""
from .rng import h64, keyed
from .wire import READ_HR, READ_IR, METER_PRODUCT

# model name -> (device type code, ARM firmware)
MODELS = {
    "HYBRID_GEN1": (0x2001, 449),
    "HYBRID_GEN2": (0x2002, 920),
    "HYBRID_GEN3": (0x2003, 312),
    "HYBRID_GEN3_OLD": (0x2003, 300),
    "POLAR": (0x2101, 180),
    "AC": (0x3001, 590),
    "HYBRID_3PH": (0x4001, 612),
    "AIO_COMMERCIAL": (0x4101, 620),
    "EMS": (0x5001, 120),
    "EMS_COMMERCIAL": (0x5101, 120),
    "AC_3PH": (0x6001, 630),
    "GATEWAY": (0x7001, 14),
    "ALL_IN_ONE": (0x8001, 612),
    "HYBRID_HV_GEN3": (0x8102, 640),
    "ALL_IN_ONE_HYBRID": (0x8201, 650),
    "HYBRID_GEN4": (0x8301, 660),
}
HV = {"HYBRID_3PH", "AC_3PH", "ALL_IN_ONE", "HYBRID_HV_GEN3", "ALL_IN_ONE_HYBRID"}
THREE_PHASE = {"HYBRID_3PH", "AC_3PH", "AIO_COMMERCIAL", "ALL_IN_ONE_HYBRID"}
AC_CONFIG = {"AC", "AC_3PH", "ALL_IN_ONE"}
EMS = {"EMS", "EMS_COMMERCIAL"}
EXTENDED = {"HYBRID_GEN4", "ALL_IN_ONE", "ALL_IN_ONE_HYBRID", "HYBRID_HV_GEN3", "HYBRID_GEN3"}
INVERTER = 0x11
LV_BATT = range(0x32, 0x38)


def pub_model(name):
    """Name of the Model member a topology resolves to."""
    return "HYBRID_GEN3" if name == "HYBRID_GEN3_OLD" else name


def serial(tag, seed):
    r = keyed("serial", tag, seed)
    return "".join(r.choice("ABCDEFGHJKLMNPQRSTUVWXYZ") for _ in range(2)) + f"{r.randrange(10000):04d}" + \
        r.choice("ABCDEFGH") + f"{r.randrange(1000):03d}"


def ser_words(s):
    b = s.encode("ascii")
    return [b[i] << 8 | b[i + 1] for i in range(0, 10, 2)]


def battery_bank(sn, seed, addr, soc=55, num_cells=16, fw=3005, phase=0):
    """A healthy LV battery bank IR(60..119)."""
    r = keyed("batt", seed, addr)
    v = [0] * 60
    base = 3280 + r.randrange(0, 40)
    for i in range(16):
        v[i] = base + r.randrange(-8, 9) + phase
    for i in range(16, 20):
        v[i] = 180 + r.randrange(0, 30)
    v[20] = sum(v[:16])
    v[21] = 200 + r.randrange(0, 20)
    v[22], v[23] = 0, sum(v[:16]) - r.randrange(50)
    cap = 16000
    v[24], v[25] = 0, cap + r.randrange(500)
    v[26], v[27] = 0, cap + 600
    v[28], v[29] = 0, soc * cap // 100
    for i in range(30, 37):
        v[i] = r.randrange(0, 200)
    v[36] = 40 + r.randrange(200)
    v[37] = num_cells
    v[38] = fw
    v[39] = 0
    v[40] = soc
    v[41], v[42] = 0, cap + 1000
    v[43], v[44] = 210, 190
    v[45], v[46] = 3000 + r.randrange(100), 3100 + r.randrange(100)
    v[47] = v[48] = v[49] = 0
    v[50:55] = ser_words(sn)
    v[55] = 8
    v[57] = 1
    return v


class Topology:
    """spec: {model, batteries:[addr], meters:[addr], bcus:[n_modules], lv_bcu:bool, silent:[...], ghosts:[meter addrs]}"""

    def __init__(self, spec, seed):
        self.spec = spec
        self.seed = seed
        self.name = spec.get("model", "HYBRID_GEN1")
        self.model = pub_model(self.name)
        self.dtc, self.fw = MODELS[self.name]
        if "fw" in spec:
            self.fw = spec["fw"]
        self.adapter = spec.get("adapter") or serial("adapter", seed)
        self.serials = {}
        self.dev = {}  # addr -> {"HR": {reg: val}, "IR": {reg: val}}
        self.writes = {}
        self._build()

    def _ser(self, addr):
        s = self.serials.get(addr)
        if s is None:
            s = self.serials[addr] = serial(f"dev{addr}", self.seed)
        return s

    def _fill(self, addr, typ, base, count, fn=None):
        m = self.dev.setdefault(addr, {"HR": {}, "IR": {}, "MR": {}})[typ]
        r = keyed("fill", self.seed, addr, typ, base)
        for k in range(count):
            m[base + k] = (r.randrange(1, 90) if fn is None else fn(k))
        return m

    def _build(self):
        sp, nm = self.spec, self.model
        a = INVERTER
        hr = self._fill(a, "HR", 0, 180)
        hr.update({0: self.dtc, 1: 0, 2: 2000, 3: 0x0201, 7: 1, 19: 449, 21: self.fw})
        for k, w in enumerate(ser_words(sp.get("inv_serial") or self._ser(a))):
            hr[13 + k] = w
        if sp.get("inv_serial"):
            self.serials[a] = sp["inv_serial"]
        for k, w in enumerate(ser_words(self._ser(0x32))):
            hr[8 + k] = w
        for k, val in enumerate((25, 10, 9, 8, 53, 20)):
            hr[35 + k] = val
        for s in (31, 32, 44, 45, 56, 57, 94, 95):
            hr[s] = 100 * (s % 20) + s % 60
        if nm not in EMS:
            self._fill(a, "IR", 0, 240)
        if nm in THREE_PHASE:
            self._fill(a, "HR", 1000, 125)
            self._fill(a, "IR", 1000, 414)
        if nm in EXTENDED:
            self._fill(a, "HR", 240, 60)
        if nm in AC_CONFIG:
            self._fill(a, "HR", 300, 60)
        if nm in EMS:
            self._fill(a, "HR", 2040, 36)
            ir = self._fill(a, "IR", 2040, 55)
            self._ems(ir)
        if nm == "GATEWAY":
            self._fill(a, "IR", 1600, 260)
        for b in sp.get("batteries", []):
            m = self._fill(b, "IR", 60, 60)
            for k, v in enumerate(battery_bank(self._ser(b), self.seed, b)):
                m[60 + k] = v
        for mt in sp.get("meters", []):
            m = self._fill(mt, "IR", 60, 30)
            m[60] = 2400 + mt
        for g in sp.get("ghosts", []):
            self._fill(g, "IR", 60, 30, lambda k: 0)
        for g in sp.get("ghost_packs", []):  # slots answered with blanks although nothing is wired there
            self._fill(g, "IR", 60, 60, lambda k: 0)
        bcus = sp.get("bcus", [])
        if nm in HV and bcus:
            m = self._fill(0xA0, "IR", 60, 60)
            m[61] = len(bcus)
            n0 = 0x50
            for i, n in enumerate(bcus):
                m = self._fill(0x70 + i, "IR", 60, 60)
                m[64] = n
                for k, w in enumerate(ser_words(self._ser(0x70 + i))):
                    m[138 + k] = w
                absent = sp.get("absent_modules", [])
                if nm == "ALL_IN_ONE" and i > 0:
                    continue
                for _ in range(min(n, 4) if nm == "ALL_IN_ONE" else n):
                    if n0 in sp.get("ghost_mods", []):
                        self._fill(n0, "IR", 60, 60, lambda k: 0)
                    elif n0 not in absent and n0 <= 0x6F:
                        mm = self._fill(n0, "IR", 60, 60)
                        for k in range(24):
                            mm[60 + k] = 3280 + k
                        for k, w in enumerate(ser_words(self._ser(n0))):
                            mm[114 + k] = w
                    n0 += 1
        if sp.get("lv_bcu"):
            self._fill(0x31, "IR", 60, 60)
        if sp.get("blank_lv_bcu"):
            self._fill(0x31, "IR", 60, 60, lambda k: 0)

    def _ems(self, ir):
        n = len(self.spec.get("managed", [1, 1])) or 1
        ir[2041] = n
        for i in range(4):
            pass

    # -- serving ---------------------------------------------------------------
    def has(self, addr, func, base, count):
        d = self.dev.get(addr)
        if d is None:
            return None
        m = d["HR" if func == READ_HR else "IR" if func == READ_IR else "MR"]
        return all(r in m for r in range(base, base + count))

    def values(self, addr, func, base, count):
        m = self.dev[addr]["HR" if func == READ_HR else "IR" if func == READ_IR else "MR"]
        return [m[r] for r in range(base, base + count)]

    def set(self, addr, typ, reg, val):
        if addr in self.dev:  # a device this plant does not have keeps nothing
            self.dev[addr][typ][reg] = val

    # -- what detection must find -----------------------------------------------
    def expected_caps(self, gone=()):
        sp, nm = self.spec, self.model
        gone = set(sp.get("gone", [])) | set(gone)
        out = {
            "device_type": nm,
            "inverter_address": INVERTER,
            "meter_addresses": sorted(m for m in sp.get("meters", []) if m not in gone),
            "lv_battery_addresses": [],
            "bcu_stacks": [],
            "aio_battery_module_addresses": [],
            "hv_bmu_addresses": [],
            "lv_bcu_address": None,
            "arm_firmware_version": self.fw or None,
        }
        if nm in HV:
            bcus = sp.get("bcus", [])
            out["bcu_stacks"] = [(i, n) for i, n in enumerate(bcus) if 0x70 + i not in gone] if 0xA0 not in gone else []
            mods = []
            if out["bcu_stacks"]:
                mods = [x for x in self.dev if 0x50 <= x <= 0x6F and x not in gone and x not in sp.get("ghost_mods", [])
                        and x < 0x50 + sum(n for _, n in out["bcu_stacks"])]  # modules are reached through their stack
            out["aio_battery_module_addresses" if nm == "ALL_IN_ONE" else "hv_bmu_addresses"] = sorted(mods)
        elif nm not in EMS:
            out["lv_battery_addresses"] = sorted(b for b in sp.get("batteries", []) if b not in gone)
            if sp.get("lv_bcu") and 0x31 not in gone:
                out["lv_bcu_address"] = 0x31
        return out

    def hinted_caps(self, prior, gone=()):
        """What detection restricted to a hint must see."""
        full = self.expected_caps(gone)
        if full["device_type"] != prior["device_type"]:
            return None
        out = dict(full, meter_addresses=[], lv_battery_addresses=[], bcu_stacks=[], aio_battery_module_addresses=[], hv_bmu_addresses=[],
                   lv_bcu_address=None)
        out["meter_addresses"] = [m for m in prior["meter_addresses"] if m in full["meter_addresses"]]
        nm = self.model
        if nm in HV:
            there = {0x70 + i: n for i, n in enumerate(self.spec.get("bcus", [])) if 0x70 + i not in gone}
            out["bcu_stacks"] = [(o, there[0x70 + o]) for o, _ in prior["bcu_stacks"] if 0x70 + o in there]
            real = [a for a in self.dev if 0x50 <= a <= 0x6F and a not in gone and a not in self.spec.get("ghost_mods", [])]
            if out["bcu_stacks"]:
                if nm == "ALL_IN_ONE":
                    out["aio_battery_module_addresses"] = [a for a in prior["aio_battery_module_addresses"] if a in real]
                else:
                    cand = list(prior["hv_bmu_addresses"]) or list(range(0x50, min(0x70, 0x50 + sum(n for _, n in out["bcu_stacks"]))))
                    out["hv_bmu_addresses"] = [a for a in cand if a in real]
        elif nm not in EMS:
            out["lv_battery_addresses"] = [b for b in prior["lv_battery_addresses"] if b in full["lv_battery_addresses"]]
            if prior["lv_bcu_address"] is not None:
                out["lv_bcu_address"] = full["lv_bcu_address"]
        return out


def refresh_banks(caps):
    """Measurement banks a poll must request, from a capabilities dict (independent statement of the contract)."""
    nm = caps["device_type"]
    a = caps["inverter_address"]
    out = []
    if nm not in EMS:
        out += [(a, READ_IR, 0, 60), (a, READ_IR, 180, 60)]
    if nm in THREE_PHASE:
        out += [(a, READ_IR, b, min(60, 1414 - b)) for b in range(1000, 1414, 60)]
    if nm in EMS:
        out += [(a, READ_IR, 2040, 55)]
    if nm == "GATEWAY":
        out += [(a, READ_IR, b, min(60, 1860 - b)) for b in range(1600, 1860, 60)]
    out += [(b, READ_IR, 60, 60) for b in caps["lv_battery_addresses"]]
    if caps["lv_bcu_address"] is not None:
        out += [(caps["lv_bcu_address"], READ_IR, 60, 60)]
    out += [(m, READ_IR, 60, 30) for m in caps["meter_addresses"]]
    out += [(0x70 + o, READ_IR, 60, 60) for o, _n in caps["bcu_stacks"]]
    out += [(m, READ_IR, 60, 60) for m in caps["aio_battery_module_addresses"]]
    out += [(m, READ_IR, 60, 60) for m in caps["hv_bmu_addresses"]]
    return out


def config_banks(caps):
    nm, fw = caps["device_type"], caps["arm_firmware_version"]
    a = caps["inverter_address"]
    out = [(a, READ_HR, 0, 60)]
    if nm not in EMS:
        out += [(a, READ_HR, 60, 60), (a, READ_HR, 120, 60), (a, READ_IR, 120, 60)]
    if nm in THREE_PHASE:
        out += [(a, READ_HR, 1000, 60), (a, READ_HR, 1060, 60), (a, READ_HR, 1120, 5)]
    if nm in EXTENDED and (nm != "HYBRID_GEN3" or (fw is not None and fw > 302)):
        out += [(a, READ_HR, 240, 60)]
    if nm in AC_CONFIG:
        out += [(a, READ_HR, 300, 60)]
    if nm in EMS:
        out += [(a, READ_HR, 2040, 36)]
    return out


TOPO_POOL = [
    {"model": "HYBRID_GEN1", "batteries": [0x32]},
    {"model": "HYBRID_GEN1", "batteries": [0x32, 0x33, 0x35], "meters": [1], "lv_bcu": True},
    {"model": "HYBRID_GEN2", "batteries": [0x32, 0x33]},
    {"model": "HYBRID_GEN3", "batteries": [0x32], "meters": [2, 5]},
    {"model": "HYBRID_GEN3_OLD", "batteries": [0x32]},
    {"model": "POLAR", "batteries": []},
    {"model": "AC", "batteries": [0x32], "meters": [1]},
    {"model": "HYBRID_3PH", "bcus": [3, 2], "meters": [1]},
    {"model": "AIO_COMMERCIAL", "batteries": [0x33]},
    {"model": "EMS", "meters": [1, 2], "ghosts": [3, 4]},
    {"model": "EMS_COMMERCIAL", "meters": []},
    {"model": "AC_3PH", "bcus": [2]},
    {"model": "GATEWAY", "meters": [8]},
    {"model": "ALL_IN_ONE", "bcus": [3]},
    {"model": "HYBRID_HV_GEN3", "bcus": [4], "ghosts": [1, 2]},
    {"model": "ALL_IN_ONE_HYBRID", "bcus": [1]},
    {"model": "HYBRID_GEN4", "batteries": [0x32, 0x37]},
]
