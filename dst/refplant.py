"""Reference model of what received frames may do to a plant's state (independent of the package's code).

Fed one decoded frame at a time with the wall-clock instant of its arrival; keeps the register values, freshness stamps, presence
marks, serials and per-device counters the plant must then show, plus, per battery pack, the guard state that decides adoption.
"""
import copy

from .world import SUSPICIOUS

WINDOW = 300  # seconds: cold-start and staleness window
NPOLLS = 10
SUSP_ALT = {40: (0xE4F9, 0xB619), 50: (0x60EF, 0x503C)}
PACKS = range(0x32, 0x38)

# (class, threshold, [indices]) of single registers; pairs are (high, low) of one 32-bit quantity
SINGLE = [("cell_mV", 300, range(0, 16)), ("cell_temp_deci", 50, (16, 17, 18, 19, 43, 44)), ("mosfet_temp_deci", 200, (21,)),
          ("v_cells_sum_mV", 1600, (20,)), ("soc_pct", 10, (40,)), ("e_total_deci", 50, (45, 46))]
PAIR = [("v_out_mV", 4000, ((22, 23),)), ("cap_centiAh", 1500, ((24, 25), (26, 27), (28, 29), (41, 42)))]
THR = {n: t for n, t, _ in SINGLE + PAIR}
SURGE = {"cell_mV": (1000, 5000), "v_out_mV": (16000, 80000), "v_cells_sum_mV": (16000, 80000), "cap_centiAh": (0, 50000)}
CONST = (37, 38)
SERIAL = range(50, 55)


def limits_broken(old, new):
    """[(ir, class, new value)] of physical limits broken between two {index: value} frames (common indices only)."""
    out = []
    for name, thr, idx in SINGLE:
        out += [(60 + i, name, new[i]) for i in idx if i in old and i in new and abs(new[i] - old[i]) > thr]
    for name, thr, prs in PAIR:
        for h, lo in prs:
            if all(k in old and k in new for k in (h, lo)):
                a, b = old[h] * 65536 + old[lo], new[h] * 65536 + new[lo]
                if abs(a - b) > thr:
                    out.append((60 + h, name, b))
    return out


def changed(old, new, idx):
    return [(60 + i, new[i]) for i in idx if i in old and i in new and old[i] != new[i]]


def cohort(f):
    return sum(1 for i in (16, 17, 18, 19) if f.get(i) == 0) >= 2


def impossible(f):
    return all(f.get(i) == 0 for i in range(16)) and bool(f.get(38) or f.get(28) or f.get(29))


class Pack:
    """Guard state of one battery pack."""

    def __init__(self):
        self.pending = None  # (frame, wall)
        self.seen = None
        self.held_step = None  # (ir, value)
        self.const = None  # (signature, since, n)
        self.surge = None  # (frame, since, n)


class RefPlant:
    def __init__(self, caps=None, heal=900, surge_heal=None):
        self.caps = caps
        self.heal, self.surge_heal = heal, surge_heal
        self.regs = {}  # addr -> {(type, reg): value}
        self.stamps = {}
        self.since = {}  # block -> (values, wall-clock instant of the adoption that first brought them)
        self.present = {}
        self.inverter = self.adapter = ""
        self.crc, self.held, self.rejected, self.cold = {}, {}, {}, {}
        self.packs = {}
        self.log = []  # (wall, addr, decision, detail) of full battery readings

    def clone(self):
        return copy.deepcopy(self)

    # -- routing -------------------------------------------------------------
    def kind(self, addr):
        c = self.caps
        if c is not None:
            if addr == c["inverter_address"]:
                return "inverter"
            if c["lv_bcu_address"] is not None and addr == c["lv_bcu_address"]:
                return "other"
            if addr in c["hv_bmu_addresses"]:
                return "module"
        elif addr in (0x11, 0x31):
            return "inverter"
        if addr in PACKS:
            return "pack"
        if 0x70 <= addr <= 0x8F:
            return "stack"
        return "other"

    # -- ingestion -------------------------------------------------------------
    def feed(self, f, wall):
        """Returns the decision taken for this frame."""
        if f is None or f.kind in ("heartbeat", "null", "other") or f.error:
            return "ignored"
        if f.kind == "read" and not f.crc_ok:
            self.crc[f.addr] = self.crc.get(f.addr, 0) + 1
            return "bad-checksum"
        regs = self.regs.setdefault(f.addr, {})
        self.adapter = f.adapter.decode("latin1").replace("\0", "")
        if f.addr in (0x11, 0x31) and not (self.caps is not None and self.caps["lv_bcu_address"] == f.addr):
            self.inverter = f.inv.decode("latin1").replace("\0", "")
        if f.kind == "write":
            if f.base == 0:
                return "ignored"
            to = self.caps["inverter_address"] if self.caps is not None else f.addr
            self.regs.setdefault(to, {})[("HR", f.base)] = f.value
            return "write"
        typ = {3: "HR", 4: "IR"}.get(f.func)
        if typ is None:
            return "ignored"
        v = f.values
        if typ == "IR" and f.base % 60 == 0 and f.count == 60:
            hits = sum(1 for k, x in SUSPICIOUS.items() if v[k] in SUSP_ALT.get(k, (x,)))
            if hits > 5:
                return "fingerprint"
        inc = {(typ, f.base + k): x for k, x in enumerate(v)}
        full = f.count >= 60
        if full and not any(v) and any(regs.get(k) for k in inc):
            return "zero-dropout"
        bank = {n - 60: x for (t, n), x in inc.items() if t == "IR" and 60 <= n < 120}
        if full and f.addr in PACKS and impossible(bank):
            self.rejected[f.addr] = self.rejected.get(f.addr, 0) + 1
            return "impossible-reading"
        kind = self.kind(f.addr)
        ser = {"inverter": ("HR", 13), "pack": ("IR", 110), "module": ("IR", 114), "stack": ("IR", 138)}.get(kind)
        if ser is not None:
            keys = [(ser[0], ser[1] + k) for k in range(5)]
            if any(k in inc for k in keys):
                words = [inc.get(k, regs.get(k)) for k in keys]
                if None in words or not self.good_serial(words):
                    return "no-device"
        d = "adopted"
        if kind == "pack":
            d = self.pack_decision(f.addr, bank, full, wall)
            if not d.startswith("adopted"):
                return d
            if full:
                self.log.append((wall, f.addr, "commit", None))
        regs.update(inc)
        key = (f.addr, typ, f.base, f.count)
        self.stamps[key] = wall
        self.present[key] = True
        if self.since.get(key, (None,))[0] != tuple(v):
            self.since[key] = (tuple(v), wall)
        return d

    @staticmethod
    def good_serial(words):
        s = b"".join(w.to_bytes(2, "big") for w in words).replace(b"\0", b"").upper()
        return len(s) == 10 and all(48 <= c <= 57 or 65 <= c <= 90 for c in s)

    # -- battery guard -----------------------------------------------------------
    def pack_decision(self, addr, new, full, wall):
        p = self.packs.setdefault(addr, Pack())
        base = {n - 60: x for (t, n), x in self.regs[addr].items() if t == "IR" and 60 <= n < 120}

        def bump(c):
            c[addr] = c.get(addr, 0) + 1
        if not full:
            if cohort(new):
                bump(self.rejected)
                return "short-corrupt"
            return "adopted-short"
        before, p.seen = p.seen, wall
        common = {i for i in new if i in base}
        dead = all(base.get(i) == 0 for i in range(16))  # no pack that answers has sixteen cells at 0 V
        if not common or (impossible(base) and not impossible(new)) or (dead and any(new.get(i) for i in range(16))):
            cat = "cold" if not common else "impossible-baseline"
            full_new = {**base, **new} if common else dict(new)
            pend = p.pending
            if pend is not None and wall - pend[1] > WINDOW:
                pend = None
            if pend is not None:
                agree = not limits_broken(pend[0], {i: full_new[i] for i in new}) and \
                    not changed(pend[0], {i: full_new[i] for i in new}, (*CONST, *SERIAL))
                if agree and cohort(new):
                    bump(self.cold)
                    return cat + "-refused"
                if agree:
                    p.pending = None
                    return "adopted-" + cat
            p.pending = (full_new, wall)
            bump(self.cold)
            return cat + "-held"
        p.pending = None
        if before is not None and wall - before > WINDOW:
            if cohort(new):
                p.seen = before
                bump(self.rejected)
                return "stale-corrupt"
            p.held_step = p.const = p.surge = None
            return "adopted-stale"
        trips = limits_broken(base, new)
        if changed(base, new, SERIAL):
            p.held_step = p.const = p.surge = None
            bump(self.rejected)
            self.log.append((wall, addr, "reject", frozenset([(ir, "IMMUTABLE") for ir, _ in changed(base, new, SERIAL)] +
                                                             [t[:2] for t in trips])))
            return "identity"
        const = changed(base, new, CONST)
        if len(trips) >= 2 and not const:
            p.held_step = p.const = None
            if self.surge_heal is not None and all(t[1] in SURGE and SURGE[t[1]][0] <= t[2] <= SURGE[t[1]][1] for t in trips):
                s = p.surge
                cur = {i: new.get(i, base.get(i)) for i in common}
                if s is not None and not limits_broken(s[0], cur) and not changed(s[0], cur, (*CONST, *SERIAL)):
                    n = s[2] + 1
                    if n >= NPOLLS and wall - s[1] >= self.surge_heal:
                        p.surge = None
                        return "adopted-surge"
                    p.surge = (cur, s[1], n)
                else:
                    p.surge = (cur, wall, 1)
                bump(self.held)
                return "surge-held"
            p.surge = None
            bump(self.rejected)
            self.log.append((wall, addr, "reject", frozenset(t[:2] for t in trips)))
            return "multi"
        if const:
            p.surge = None
            c = p.const
            sig = tuple(const)
            p.held_step = None
            if c is not None and c[0] == sig:
                if c[2] + 1 >= NPOLLS and wall - c[1] >= self.heal:
                    p.const = None
                    return "adopted-const"
                p.const = (sig, c[1], c[2] + 1)
            else:
                p.const = (sig, wall, 1)
            bump(self.held)
            return "const-held"
        p.const = p.surge = None
        if len(trips) == 1:
            ir, name, val = trips[0]
            h = p.held_step
            if h is not None and h[0] == ir and abs(val - h[1]) <= THR[name]:
                p.held_step = None
                return "adopted-step"
            p.held_step = (ir, val)
            bump(self.held)
            return "step-held"
        p.held_step = None
        return "adopted-clean"


class Shadow:
    """Feeds every frame a client receives to a reference plant and compares both whenever the system is quiescent."""

    def __init__(self, w, client, ref, fields=None):
        self.w, self.client, self.ref = w, client, ref
        self.pend = []
        self.cuts = 0
        self.trace = []  # (t, addr, decision, key)
        self.diff = None
        self.decisions = {}
        self.fields = fields
        self.dirty = False
        self.comparing = True
        w.on_frame.append(self.on_frame)
        w.quiet_hooks.append(self.quiet)

    def on_frame(self, x):
        if self.w.conn_info[x.conn]["client"] == self.client:
            self.pend.append((x, self.w.wall()))

    def cut(self):
        """True when the client's link ended or was being replaced since the last quiescent instant."""
        n = sum((c["closed"][0] is not None) + (c["lost_at"] is not None) + 1 for c in self.w.conn_info.values() if c["client"] == self.client)
        n += sum(1 + (r["t1"] is not None) for r in self.w.ops if r["client"] == self.client and r["op"]["op"] in ("close", "connect"))
        out, self.cuts = n != self.cuts, n
        return out

    def apply(self, ref, items):
        out = []
        for x, wall in items:
            out.append((x, ref.feed(x.f if x.tag != "lan" else None, wall)))
        return out

    def quiet(self, _w):
        if self.diff is not None:
            return
        cut = self.cut()
        if not self.pend and not self.dirty:
            return
        self.dirty = False
        items, self.pend = self.pend, []
        before = self.ref.clone() if cut and items else None
        done = self.apply(self.ref, items)
        d = self.compare(self.ref)
        if d and before is not None:  # the link ended at this very instant: any prefix may have been read
            for k in range(len(items) - 1, -1, -1):
                r = before.clone()
                dn = self.apply(r, items[:k])
                if not self.compare(r):
                    self.ref, d, done = r, None, dn
                    break
        for x, dec in done:
            self.decisions[dec] = self.decisions.get(dec, 0) + 1
            self.trace.append((self.w.now, x.f.addr if x.f is not None else None, dec, x.f.key() if x.f is not None else None))
        if d:
            self.diff = {"what": "state-differs", "t": round(self.w.now, 6), "client": self.client, **d,
                         "frames": [(x.tag, repr(x.f), dec) for x, dec in done][-4:],
                         "decisions": sorted({dec for x, dec in done})}

    def compare(self, ref):
        if not self.comparing:
            return None
        p = self.w.clients[self.client].plant
        want_addr = ref.regs
        for a in sorted(set(want_addr) | set(p.register_caches)):
            have = p.register_caches.get(a)
            want = want_addr.get(a, {})
            hv = {} if have is None else {(type(k).__name__, k.index): v for k, v in dict.items(have)}
            if hv != want:
                ks = sorted(k for k in set(hv) | set(want) if hv.get(k) != want.get(k))
                return {"field": "registers", "addr": a, "n": len(ks), "first": [list(ks[0]), want.get(ks[0]), hv.get(ks[0])]}
        st = {k: v.timestamp() for k, v in p.register_block_updated_at.items()}
        if set(st) != set(ref.stamps) or any(abs(st[k] - ref.stamps[k]) > 1e-5 for k in st):
            ks = sorted(k for k in set(st) | set(ref.stamps) if k not in st or k not in ref.stamps or abs(st[k] - ref.stamps[k]) > 1e-5)
            return {"field": "stamps", "addr": ks[0][0], "first": [list(ks[0]), ref.stamps.get(ks[0]), st.get(ks[0])]}
        pr = {k: v for k, v in p.register_block_present.items()}
        if pr != ref.present:
            ks = sorted(k for k in set(pr) | set(ref.present) if pr.get(k) != ref.present.get(k))
            return {"field": "presence", "addr": ks[0][0], "first": [list(ks[0]), ref.present.get(ks[0]), pr.get(ks[0])]}
        for name, want, have in (("inverter-serial", ref.inverter, p.inverter_serial_number), ("adapter-serial", ref.adapter, p.data_adapter_serial_number)):
            if have != want:
                return {"field": name, "addr": None, "first": [name, want, have]}
        for name, want, have in (("crc", ref.crc, p.crc_failure_count), ("held", ref.held, p.splice_held_count),
                                 ("rejected", ref.rejected, p.splice_reject_count), ("cold", ref.cold, p.cold_start_held_count)):
            hv = {k: v for k, v in have.items() if v}
            if hv != want:
                ks = sorted(k for k in set(hv) | set(want) if hv.get(k) != want.get(k))
                return {"field": "count-" + name, "addr": ks[0], "first": [ks[0], want.get(ks[0]), hv.get(ks[0])]}
        return None
