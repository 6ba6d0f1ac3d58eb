"""Freshness reports the truth."""
from datetime import UTC, datetime

from ..feed import pack_feed
from ..gen import anywhere, read_op
from . import guard

RUNS = {"quick": 1500, "thorough": 20000}
BANKS = [(0x11, 4, 0, 60), (0x11, 4, 180, 60), (0x11, 3, 0, 60), (0x11, 3, 60, 60), (0x01, 4, 60, 30), (0x45, 4, 0, 60), (0x11, 4, 0, 30),
         (0x11, 4, 30, 60), (0x11, 4, 7, 1), (0x11, 4, 55, 10), (0x70, 4, 60, 60), (0x31, 4, 60, 60), (0x11, 3, 7, 1), (0x11, 3, 30, 60)]
KINDS = ["ok", "ok", "again", "blip", "multi", "cohort", "const", "noise", "zero", "short", "gap", "serial"]


def gen(r, i, tier):
    banks = r.sample(BANKS, r.randrange(1, 7)) + [anywhere(r) for _ in range(r.choice((0, 0, 1, 3)))]
    feed, t = [], 1.0
    for j in range(r.choice((6, 15, 40))):
        t += r.choice((0.01, 1, 5, 30, 200, 400)) * r.random()
        a, f, b, c = r.choice(banks)
        it = {"t": t, "a": a, "f": f, "b": b, "n": c, "v": r.choice(("zero", "data", "data", "mixed", "same", "same"))}
        if r.random() < 0.25:
            it["wrap"] = r.choice(("crc", "crc", "error", "susp", "null", "almost"))
        if r.random() < 0.06:
            it["ser"] = r.choice(("other", "blank", "bad"))
        if r.random() < 0.08:
            it["twice"] = r.choice((0.0, 0.02, 3.0))
        it["t"] = round(t, 3)
        feed.append(it)
    if r.random() < 0.4:
        feed += pack_feed(r, r.sample((0x32, 0x33, 0x35), r.choice((1, 2))), KINDS, r.choice((5, 30, 60)), r.choice((5, 15)))
    feed.sort(key=lambda x: x["t"])
    for j, it in enumerate(feed):
        it["id"] = j + 1
    end = feed[-1]["t"] + 5
    cfg = {"client": {"tx_message_wait": 0.0, "tx_jitter": 0.0}, "seg": r.choice(("whole", "random", "bytes")), "coalesce": r.random() < 0.5,
           "lat": [0.001, r.choice((0.002, 0.2))]}
    faults = [{"at": round(r.uniform(2, end), 2), "act": r.choice(("eof", "rst"))} for _ in range(r.choice((0, 0, 1, 3)))]
    for _ in range(r.choice((0, 0, 1, 3))):
        faults.append({"at": round(r.uniform(2, end), 3), "act": "skew", "s": r.choice((-86400, -3600, -30, -0.5, 0.5, 40, 3600, 7200))})
    for _ in range(r.choice((0, 3, 6))):
        faults.append({"req": r.randrange(8), "act": r.choice(("zero", "crc", "err", "dup", "susp", "late", "flip")), "s": 1.5})
    actors = [{"ops": [{"op": "call", "name": "keep", "until": end, "every": r.choice((0.3, 2.0))}]}]
    q = [round(r.uniform(0, end), 3) for _ in range(r.randrange(2, 10))] + [end]
    actors.append({"ops": [x for a, b in zip([0.0] + sorted(q), sorted(q)) for x in ({"op": "sleep", "t": b - a}, {"op": "call", "name": "ages"})]})
    if r.random() < 0.5:
        rd = [{"op": "sleep", "t": 2.0}]
        for _ in range(r.randrange(1, 8)):
            k = r.choice([b for b in banks if b[0] == 0x11] or [(0x11, 4, 0, 60)])
            rd += [read_op(k, 1.0, r.randrange(2)), {"op": "sleep", "t": round(r.random() * end / 4, 2)}]
        actors.append({"ops": rd})
    forget = guard.forgetting(r, [(a, {3: "HR", 4: "IR"}[f], b, c) for a, f, b, c in banks if f in (3, 4)] + [(0x32, "IR", 60, 60)], end) if r.random() < 0.3 else []
    return {"cfg": cfg, "caps": r.random() < 0.6, "dongles": [{"topo": {"model": "HYBRID_GEN1", "batteries": [0x32, 0x33, 0x35]}, "tseed": r.randrange(1 << 30)}],
            "actors": actors + forget, "feed": feed, "faults": faults, "horizon": end + 60}


def query(w):
    from givenergy_modbus.model.register import HR, IR
    sh = w.extra["shadow"][0]
    if sh.diff is not None:
        return
    p = w.clients[0].plant
    ref = sh.ref
    now = w.wall()
    T = {"HR": HR, "IR": IR}
    w.extra["asked"] = w.extra.get("asked", 0) + 1
    keys = set(ref.stamps) | {(0x11, "IR", 0, 60), (0x11, "IR", 0, 59), (0x12, "IR", 0, 60), (0x32, "IR", 60, 60)}
    for k in sorted(keys):
        want = now - ref.stamps[k] if k in ref.stamps else None
        have = p.block_age(*k)
        if (want is None) != (have is None) or (want is not None and abs(want - have) > 1e-4):
            return w.violate("block-age", key=list(k), want=want, have=have)
        want = now - ref.since[k][1] if k in ref.since else None
        have = p.content_unchanged_seconds(*k)
        if (want is None) != (have is None) or (want is not None and abs(want - have) > 1e-4):
            return w.violate("content-unchanged-for", key=list(k), want=want, have=have)
    at = datetime.fromtimestamp(now + 61.5, UTC)
    for k in sorted(ref.stamps)[:6]:  # asked about another instant, with and without a time zone
        for x in (at, at.replace(tzinfo=None)):
            for name, want, have in (("block-age", now + 61.5 - ref.stamps[k], p.block_age(*k, now=x)),
                                     ("content-unchanged-for", now + 61.5 - ref.since[k][1], p.content_unchanged_seconds(*k, now=x))):
                if have is None or abs(want - have) > 1e-4:
                    return w.violate(name + "-at", key=list(k), now=str(x), want=want, have=have)
    for a, t, n in sorted({(k[0], k[1], x) for k in keys for x in (k[2], k[2] + k[3] - 1, k[2] + k[3], max(0, k[2] - 1), k[2] + k[3] // 2)}):
        s = [v for k, v in ref.stamps.items() if k[0] == a and k[1] == t and k[2] <= n < k[2] + k[3]]
        want = now - max(s) if s else None
        have = p.register_age(a, T[t](n))
        if (want is None) != (have is None) or (want is not None and abs(want - have) > 1e-4):
            return w.violate("register-age", reg=[a, t, n], want=want, have=have)
    lu = p.last_updated_at
    want = max(ref.stamps.values()) if ref.stamps else None
    if (lu is None) != (want is None) or (lu is not None and abs(lu.timestamp() - want) > 1e-4):
        return w.violate("last-updated", want=want, have=str(lu))


def build(plan):
    w = guard.build(plan)

    async def ages(w, cl, op, rec):
        w.extra["ask"] = True

    def hook(w):
        if w.extra.pop("ask", None):
            query(w)
    w.extra["calls"]["ages"] = ages
    w.quiet_hooks.append(hook)
    return w


def check(w):
    return guard.differences(w, lambda d: d["field"] == "stamps" or d["what"] == "state-differs-after-invalidation")


def probes(w):
    return {**guard.decisions(w), "age_queries": w.extra.get("asked", 0)}
