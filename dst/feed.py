"""Scripted device readings: a plan's `feed` is a list of items, expanded into frames the dongle pushes at given instants.

An item is {"t", "a": address, ...}:
  pack readings:  "m": [[index, "d"|"v", x], ...] changes applied to the pack's current true reading (d = delta, v = value),
                  "keep": the change persists in the true reading, "ser": n use the n-th foreign serial,
                  "short": [base, count], "wrap": how the frame is spoilt (crc, error, null, susp, zero)
  other readings: "f", "b", "n", "v": data|zero|mixed|same, "ser": own|other|blank, "wrap"
"""
from . import wire
from .rng import keyed
from .topo import Topology, battery_bank, ser_words, serial
from .world import SUSPICIOUS


def spoil(raw_fn, wrap, r, ad, inv, a, f, b, n, vals):
    if wrap == "error":
        return wire.error_response(ad, inv, a, f, b, n)
    if wrap == "null":
        return wire.null_response(ad, inv, a)
    if wrap == "zero":
        vals = [0] * n
    if wrap == "susp" and n == 60:
        vals = list(vals)
        ks = sorted(SUSPICIOUS)
        r.shuffle(ks)
        for k in ks[:r.randrange(6, 18)]:
            vals[k] = SUSPICIOUS[k]
    if wrap == "almost" and n == 60:
        vals = list(vals)
        ks = [k for k in sorted(SUSPICIOUS) if not 13 <= k <= 17]
        r.shuffle(ks)
        for k in ks[:5]:
            vals[k] = SUSPICIOUS[k]
    raw = wire.read_response(ad, inv, a, f, b, vals)
    if wrap == "crc":
        x = bytearray(raw)
        how = r.randrange(4)
        if how == 0:
            x[-1 - r.randrange(2)] ^= 1 << r.randrange(8)
        elif how == 1:
            x[r.randrange(42, len(x) - 2)] ^= 1 << r.randrange(8)
        elif how == 2:
            x[28 + r.randrange(10)] ^= 1 << r.randrange(6)
        else:
            x[-2:] = b"\0\0" if x[-2:] != b"\0\0" else b"\0\1"
        raw = bytes(x)
        if wire.MARK in raw[1:]:
            raw = raw[:-1] + bytes((raw[-1] ^ 1,)) if wire.MARK not in raw[1:-1] else wire.error_response(ad, inv, a, f, b, n)
    if wrap == "count":  # the count field promises more values than follow
        raw = wire.read_response(ad, inv, a, f, b, vals[:-1], count=n)
    if wrap == "func":  # unknown function code
        raw = wire.transparent(ad, 0x8A, a, 0x2B, b"\0\1\0\2\0\3\0\4", None, inv)
    if wrap == "stub":  # too short to be a response
        raw = wire.mbap(2, wire.ser(ad) + b"\0" * r.randrange(0, 12))
    return raw


def expand(plan, d=0):
    """Timed push faults for the plan's feed."""
    spec = plan["dongles"][d]
    topo = Topology(spec["topo"], spec["tseed"])
    ts = spec["tseed"]
    packs, last, out = {}, {}, []
    for j, it in enumerate(plan.get("feed", ())):
        r = keyed("feed", ts, it.get("id", j))
        a = it["a"]
        sets = []
        ad = it.get("ad") or topo.adapter
        inv = topo._ser(a)
        if it.get("envser"):
            inv = it["envser"]
        if "m" in it:
            cur = packs.setdefault(a, battery_bank(topo._ser(a), ts, a))
            v = list(cur)
            for k in range(16):
                v[k] = max(2800, min(3600, v[k] + r.randrange(-3, 4))) if it.get("drift", True) else v[k]
            v[57] = it.get("id", j) % 60000 + 1
            base = list(v)
            for i, how, x in it["m"]:
                v[i] = max(0, min(65535, v[i] + x if how == "d" else x))
            if it.get("ser"):
                v[50:55] = ser_words(serial(f"foreign{it['ser']}", ts))
            if it.get("keep"):
                packs[a] = list(v)
                sets = [[a, "IR", 60 + k, x] for k, x in enumerate(v)]
            elif it.get("drift", True):
                packs[a] = base
            b, n = it.get("short", (60, 60))
            vals = v[b - 60:b - 60 + n]
            f = 4
        else:
            f, b, n = it["f"], it["b"], it["n"]
            key = (a, f, b, n)
            mode = it.get("v", "data")
            if mode == "same" and key in last:
                vals = list(last[key])
            elif mode == "zero":
                vals = [0] * n
            else:
                vals = [r.randrange(1, 3000) if mode != "mixed" or r.random() < 0.4 else 0 for _ in range(n)]
                if mode == "mixed" and not any(vals):
                    vals[-1] = 7
                sreg = {3: 13}.get(f) if a in (0x11, 0x31) else 138 if 0x70 <= a <= 0x8F else 114 if 0x50 <= a <= 0x6F else None
                sn = {"own": topo._ser(a), "other": serial("foreign1", ts), "blank": "", "bad": "ab!"}[it.get("ser", "own")]
                if sreg is not None:
                    for k, x in enumerate(ser_words(sn.ljust(10, "\0"))):
                        if b <= sreg + k < b + n:
                            vals[sreg + k - b] = x
                if f == 3 and b == 0:
                    for k, x in ((0, topo.dtc), (21, topo.fw)):
                        if k < n and mode != "mixed":
                            vals[k] = x
            last[key] = list(vals)
        raw = spoil(None, it.get("wrap"), r, ad, inv, a, f, b, n, vals)
        out.append({"at": round(it["t"], 4), "act": "push", "raw": raw.hex(), "d": d, "tag": it.get("wrap") or "reading", "set": sets})
        if it.get("twice"):
            out.append(dict(out[-1], at=round(it["t"] + it["twice"], 4)))
    return out


async def keeper(w, cl, op, rec):
    """Stay connected until op['until']."""
    import asyncio
    c = w.clients[cl]
    while w.now < op["until"]:
        if not c.connected:
            try:
                await c.connect()
            except Exception:  # noqa: BLE001
                pass
        await asyncio.sleep(op.get("every", 1.0))


# -- battery scripts -----------------------------------------------------------
SCAL = [(300, list(range(16))), (50, [16, 17, 18, 19, 43, 44]), (200, [21]), (1600, [20]), (10, [40]), (50, [45, 46]),
        (4000, [23]), (1500, [25, 27, 29, 42])]
UNGUARDED = [30, 31, 32, 33, 34, 35, 36, 39, 47, 48, 49, 55, 56, 58, 59]


def change(r, big=None, cls=None):
    """One register change near or beyond its limit."""
    thr, idx = r.choice(SCAL) if cls is None else cls
    i = r.choice(idx)
    if big is None:
        big = r.random() < 0.6
    if i in range(16):
        d = thr + (r.choice((4, 5, 10, 200, 900)) if big else -r.choice((4, 5, 40)))
    else:
        d = thr + (r.choice((1, 1, 2, thr // 2, thr, 3 * thr)) if big else -r.choice((0, 0, 1, thr // 2)))
    if i == 21:
        d = min(d, 60000)
    return [i, "d", d * (r.choice((1, -1)) if i in range(16) or i in (45, 46, 20, 23) else r.choice((1, 1, -1)))]


def surge_change(r, n=None):
    out = []
    amt = r.choice((310, 350, 420))
    for i in r.sample(range(16), n or r.randrange(2, 17)):
        out.append([i, "d", amt])
    if r.random() < 0.5:
        out.append([23, "d", r.choice((1000, 4001, 5000))])
    if r.random() < 0.3:
        out.append([20, "d", r.choice((1601, 5000))])
    return out


def episode(r, a, cfgd):
    """A list of (gap, item) for one pack."""
    k = r.choice(cfgd["kinds"])
    gap = cfgd["gap"]
    g = lambda: gap * r.choice((1, 1, 1, 0.5, 1.5))  # noqa: E731
    ok = lambda n=1: [(g(), {"m": []}) for _ in range(n)]  # noqa: E731
    if k == "ok":
        return ok(r.randrange(1, 5))
    if k == "near":
        return [(g(), {"m": [change(r, False)], "keep": r.random() < 0.5})]
    if k == "blip":
        return [(g(), {"m": [change(r, True)]})] + (ok() if r.random() < 0.7 else [])
    if k == "step":
        c = change(r, True)
        return [(g(), {"m": [c], "keep": True})] + ok(r.randrange(0, 3))
    if k == "step2":  # held, then confirmed within / beyond the limit of the held value, or at another register
        thr, idx = r.choice(SCAL)
        i = r.choice(idx)
        c = change(r, True, (thr, [i]))
        y = r.random()
        if y < 0.5:
            c2 = [i, "d", c[2] + r.choice((thr - 4, thr + 4, -thr + 4, thr // 2)) * (1 if c[2] > 0 else -1)]
        elif y < 0.8:
            c2 = change(r, True)
        else:
            c2 = c
        mid = [(g(), {"m": []})] if r.random() < 0.25 else []
        return [(g(), {"m": [c]})] + mid + [(g(), {"m": [c2]})] + (ok() if r.random() < 0.6 else [])
    if k == "multi":
        m = [change(r, True) for _ in range(r.randrange(2, 6))]
        rep = r.choice((1, 1, 2, 3, 12))
        return [(g(), {"m": m, "drift": r.random() < 0.5}) for _ in range(rep)] + (ok() if r.random() < 0.8 else [])
    if k == "cohort":
        idx = r.sample((16, 17, 18, 19), r.choice((1, 2, 2, 3, 4)))
        m = [[i, "v", 0] for i in idx]
        if r.random() < 0.3:
            m += [[43, "v", 0], [44, "v", 0]]
        return [(g(), {"m": m}) for _ in range(r.choice((1, 2, 3)))]
    if k == "serial":
        n = r.choice((1, 1, 2, 12))
        sn = r.randrange(1, 3)
        keep = r.random() < 0.2
        return [(g(), {"m": [], "ser": sn, "keep": keep}) for _ in range(n)]
    if k == "const":
        m = [[r.choice((37, 38)), "v", r.randrange(1, 5000)]]
        if r.random() < 0.3:
            m.append([75 - m[0][0], "v", r.randrange(1, 5000)])
        if r.random() < 0.4:
            m += [change(r) for _ in range(r.randrange(1, 4))]
        n = r.choice((1, 2, 5, 9, 10, 11, 12, 14, 40))
        out = [(g(), {"m": m, "drift": True}) for _ in range(n)]
        if r.random() < 0.4 and n > 2:  # interrupted
            out[r.randrange(n)] = (g(), r.choice(({"m": []}, {"m": [[37, "v", 999]]}, {"m": m, "wrap": "crc"}, {"m": m + [[40, "d", 30]]},
                                                  {"m": [[16, "v", 0], [17, "v", 0]]}, {"m": [change(r, True)]})))
        if r.random() < 0.5 and n >= 10:
            out[-1][1]["keep"] = True
        return out + (ok() if r.random() < 0.5 else [])
    if k == "surge":
        m = surge_change(r)
        if r.random() < 0.2:
            m.append(r.choice(([40, "d", 15], [16, "d", 60], [45, "d", 70], [21, "d", 250], [5, "v", 5200], [23, "v", 9])))
        n = r.choice((2, 9, 10, 11, 12, 30))
        out = [(g(), {"m": m}) for _ in range(n)]
        if r.random() < 0.4:
            out[r.randrange(n)] = (g(), r.choice(({"m": []}, {"m": surge_change(r, 4)}, {"m": m + [[38, "v", 1]]}, {"m": m, "wrap": "crc"},
                                                  {"m": m + [[18, "v", 0], [19, "v", 0]]}, {"m": m, "ser": 1})))
        if r.random() < 0.5:
            out[-1][1]["keep"] = True
        return out + (ok() if r.random() < 0.5 else [])
    if k == "gap":
        t = r.choice((295, 299, 300.5, 301, 320, 900, 4000))
        x = r.random()
        if x < 0.45:
            it = {"m": []}
        elif x < 0.7:
            it = {"m": [change(r, True) for _ in range(r.randrange(1, 5))], "keep": r.random() < 0.5}
        elif x < 0.8:
            it = {"m": [], "ser": 1}
        elif x < 0.9:
            it = {"m": [[r.choice((37, 38)), "v", 777]]}
        else:
            it = {"m": [[16, "v", 0], [18, "v", 0]]}
        return [(t, it)] + ok(r.randrange(0, 3))
    if k == "impossible":
        m = [[i, "v", 0] for i in range(16)]
        if r.random() < 0.4:
            m += [[38, "v", 0], [28, "v", 0], [29, "v", 0]]
        n = r.choice((1, 2, 3))
        return [(g(), {"m": m, "short": r.choice(([60, 60], [60, 60], [60, 42], [60, 39], [60, 16]))}) for _ in range(n)] + ok(r.randrange(0, 4))
    if k == "short":
        b, n = r.choice(((60, 1), (60, 20), (60, 30), (76, 4), (90, 10), (100, 1), (110, 5), (97, 2), (60, 59), (74, 3)))
        m = [] if r.random() < 0.5 else [[i, "v", 0] for i in r.sample((16, 17, 18, 19), 2)] if r.random() < 0.6 else [change(r, True)]
        return [(g(), {"m": m, "short": [b, n]})]
    if k == "zero":
        return [(g(), {"m": [], "wrap": "zero"}) for _ in range(r.choice((1, 2)))]
    if k == "noise":
        return [(g(), {"m": [], "wrap": r.choice(("crc", "error", "null", "susp", "func", "stub", "count"))})]
    if k == "again":
        return [(g(), {"m": [], "drift": False, "twice": r.choice((0.0, 0.01, 1.0))})]
    raise ValueError(k)


def pack_feed(r, packs, kinds, gap, n_items, t0=1.0, warm=0):
    """Interleaved scripts of several packs."""
    items, ident = [], 1
    for a in packs:
        t = t0 + r.random() * gap
        seq = [(gap, {"m": []}) for _ in range(warm)]
        while len(seq) < n_items:
            seq += episode(r, a, {"kinds": kinds, "gap": gap})
        for g, it in seq[:n_items + 40]:
            t += g
            items.append({"t": t, "a": a, **it})
    items.sort(key=lambda x: x["t"])
    for it in items:
        it["t"] = round(it["t"], 3)
        it["id"] = ident
        ident += 1
    return items
