"""Link-quality counters count each event once."""
from ..feed import pack_feed
from ..gen import anywhere, read_op
from ..hist import History
from . import guard

RUNS = {"quick": 1500, "thorough": 20000}
BANKS = [(0x11, 4, 0, 60), (0x11, 3, 0, 60), (0x11, 4, 180, 60), (0x01, 4, 60, 30), (0x45, 4, 0, 60), (0x11, 4, 0, 30), (0x70, 4, 60, 60)]
KINDS = ["ok", "ok", "again", "blip", "step", "step2", "multi", "cohort", "const", "noise", "zero", "short", "gap", "serial", "surge", "impossible"]


def gen(r, i, tier):
    feed, t = [], 1.0
    for j in range(r.choice((0, 6, 20))):
        t += r.choice((0.0, 0.01, 1, 5)) * r.random()
        a, f, b, c = r.choice(BANKS) if r.random() < 0.75 else anywhere(r)
        it = {"t": round(t, 3), "a": a, "f": f, "b": b, "n": c, "v": r.choice(("data", "mixed", "same"))}
        if r.random() < 0.6:
            it["wrap"] = r.choice(("crc", "crc", "crc", "error", "null"))
        feed.append(it)
    packs = r.sample((0x32, 0x33, 0x36), r.choice((1, 2)))
    if r.random() < 0.6:
        feed += pack_feed(r, packs, KINDS, r.choice((5, 30, 60)), r.choice((8, 20)))
    feed.sort(key=lambda x: x["t"])
    for j, it in enumerate(feed):
        it["id"] = j + 1
    end = (feed[-1]["t"] if feed else 1.0) + 5
    cfg = {"client": {"tx_message_wait": r.choice((0.0, 0.05)), "tx_jitter": 0.0}, "seg": r.choice(("whole", "random")), "coalesce": r.random() < 0.5,
           "lat": [0.001, 0.002]}
    if r.random() < 0.3:
        cfg["client"]["splice_reject_heal_seconds"] = r.choice((30, 120))
    actors = [{"ops": [{"op": "connect"}]}]
    faults = []
    keys = [(0x11, 4, 0, 60), (0x11, 3, 0, 60), (0x11, 3, 60, 60), (0x01, 4, 60, 30), (0x32, 4, 60, 60), (0x33, 4, 60, 60), (0x40, 4, 0, 60), (0x11, 4, 180, 60)]
    r.shuffle(keys)
    na = r.randrange(1, 5)
    timeout = r.choice((0.4, 1.0))
    for a in range(na):
        ops = []
        for _ in range(r.randrange(1, 6)):
            ops += [read_op(r.choice(keys[a::na]), timeout, r.randrange(4), retry_delay=r.choice((0, 0.1, 0.5)), warn=r.random() < 0.8),
                    {"op": "sleep", "t": round(r.random() * 3, 3)}]
        actors.append({"start": round(0.1 + r.random(), 3), "ops": ops})
    for k in range(40):
        if r.random() < 0.5:
            faults.append({"req": k, "act": r.choice(("drop", "drop", "err", "crc", "null", "late", "dup", "flip")), "s": round(timeout * r.choice((0.5, 1.2)), 2)})
    drop = r.random() < 0.2
    if drop:
        faults += [{"at": round(r.uniform(1, 10), 2), "act": r.choice(("eof", "rst"))}]
        actors[0]["ops"].append({"op": "call", "name": "keep", "until": end, "every": 0.3})
    det = r.random() < 0.12
    plan = {"cfg": cfg, "caps": r.random() < 0.5, "dongles": [{"topo": {"model": "HYBRID_GEN1", "batteries": [0x32, 0x33], "meters": [1]},
            "tseed": r.randrange(1 << 30), "lat": [0.005, 0.03]}],
            "actors": actors, "feed": feed, "faults": faults, "horizon": end + 300}
    if det:  # detection alone, on a healthy link: its probes of absent devices are not retries
        plan.update(feed=[], faults=[], detect=True, caps=False, actors=[{"ops": [{"op": "connect"}, {"op": "detect", "probe_retries": r.randrange(3)}]}])
        plan["dongles"][0]["topo"] = r.choice(({"model": "HYBRID_GEN1", "batteries": [0x33]}, {"model": "HYBRID_3PH", "bcus": [2], "meters": [3]},
                                               {"model": "AC", "batteries": []}, {"model": "ALL_IN_ONE", "bcus": [2]}))
        plan["dongles"][0]["absent_bank"] = r.choice(("silent", "error"))
    return plan


def build(plan):
    w = guard.build(plan)
    last = {}

    def mono(w):
        p = w.clients[0].plant
        for n in ("crc_failure_count", "splice_reject_count", "splice_held_count", "cold_start_held_count", "retry_count"):
            for a, x in getattr(p, n).items():
                if x < last.get((n, a), 0):
                    w.violate("counter-decreased", counter=n, addr=a)
                last[n, a] = x
    w.quiet_hooks.append(mono)
    return w


def check(w):
    have = dict(w.clients[0].plant.retry_count)
    if w.plan.get("detect"):
        bad = {a: n for a, n in have.items() if n}
        return [{"what": "probe-counted-as-retry", "counts": bad}] if bad else []
    v = guard.differences(w, lambda d: d["field"].startswith("count-"))
    h = History(w)
    lo, hi = {}, {}
    for r in w.ops:
        if r["op"]["op"] != "read" or not r["op"].get("warn", True):
            continue
        key = h.key_of(r["op"])
        a, n = key[0], len(h.attempts(r, key))
        if r["out"] == "TimeoutError":
            x, y = r["op"]["retries"], r["op"]["retries"]
        elif r["out"] == "ok":
            # an answer to the previous attempt may arrive while the next one is queued, which is then not sent
            x, y = max(0, n - 1), n - 1 + (0 if r["op"]["retry_delay"] and not w.cfg["client"]["tx_message_wait"] else 1)
            y = min(y, r["op"]["retries"])
        else:
            x, y = 0, r["op"]["retries"]
        lo[a], hi[a] = lo.get(a, 0) + x, hi.get(a, 0) + y
    for a in sorted(set(have) | set(lo)):
        if not lo.get(a, 0) <= have.get(a, 0) <= hi.get(a, 0):
            v.append({"what": "retry-count", "addr": a, "have": have.get(a, 0), "want": [lo.get(a, 0), hi.get(a, 0)]})
    return v


def probes(w):
    return {**guard.decisions(w), "retries": sum(w.clients[0].plant.retry_count.values()), "detect_runs": int(bool(w.plan.get("detect")))}
