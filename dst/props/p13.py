"""The battery guard always recovers, and not early."""
from ..feed import pack_feed
from . import guard

RUNS = {"quick": 1100, "thorough": 14000}
KINDS = ["ok", "const", "const", "surge", "surge", "gap", "gap", "impossible", "cohort", "multi", "blip", "short"]
MINE = {"adopted-const", "const-held", "adopted-surge", "surge-held", "adopted-stale", "stale-corrupt", "adopted-impossible-baseline",
        "impossible-baseline-held", "impossible-baseline-refused", "impossible-reading"}


def gen(r, i, tier):
    packs = r.sample(range(0x32, 0x38), r.choice((1, 1, 1, 2)))
    gap = r.choice((5, 20, 30, 60, 90, 140, 290))
    n = r.choice((15, 40, 80)) if tier == "quick" else r.choice((40, 120, 300))
    feed = []
    if r.random() < 0.4:  # an impossible baseline slips in through short reads before the first full one
        a = packs[0]
        m = [[k, "v", 0] for k in range(16)]
        t = 1.0
        for b, c in r.choice((((60, 30), (90, 10)), ((60, 42),), ((60, 16), (98, 1)), ((60, 16), (88, 2)), ((60, 15), (98, 1)))):
            t += r.random() * 5
            feed.append({"t": round(t, 3), "a": a, "m": m, "short": [b, c], "drift": False})
        feed += pack_feed(r, packs, ["ok", "cohort", "const", "multi", "gap", "noise", "impossible"], gap, 6, t0=t + gap)
    elif r.random() < 0.4:  # a constant is wrong from the start, then corrected for good
        x = r.choice((37, 38))
        t = 1.0
        nbad = r.choice((2, 2, 3))
        for k in range(nbad):
            t += gap
            feed.append({"t": round(t, 3), "a": packs[0], "m": [[x, "v", 9]]})
    t0 = feed[-1]["t"] + gap if feed else 1.0
    feed += pack_feed(r, packs, KINDS, gap, n // len(packs), t0=t0, warm=r.choice((0, 2, 3)))
    for k, it in enumerate(feed):
        it["id"] = k + 1
    end = feed[-1]["t"] + 5
    cfg = {"client": {"tx_message_wait": 0.0, "tx_jitter": 0.0}, "seg": r.choice(("whole", "random")), "coalesce": r.random() < 0.5,
           "lat": [0.001, r.choice((0.002, 0.2))]}
    if r.random() < 0.6:
        cfg["client"]["splice_reject_heal_seconds"] = r.choice((30, 120, 300, 600))
    if r.random() < 0.6:
        cfg["client"]["splice_heal_seconds"] = r.choice((0, 60, 300, 600))
    faults = [{"at": round(r.uniform(2, end), 2), "act": r.choice(("eof", "rst"))} for _ in range(r.choice((0, 0, 1, 3)))]
    forget = guard.forgetting(r, [(a, "IR", 60, 60) for a in packs] * 4 + [(packs[0], "HR", 60, 60), (packs[0], "IR", 60, 30)], end) if r.random() < 0.12 else []
    return {"cfg": cfg, "caps": r.random() < 0.5, "dongles": [{"topo": {"model": "HYBRID_GEN1", "batteries": packs}, "tseed": r.randrange(1 << 30)}],
            "actors": [{"ops": [{"op": "call", "name": "keep", "until": end, "every": r.choice((0.3, 2.0))}]}] + forget,
            "feed": feed, "faults": faults, "horizon": end + 60}


build = guard.build


def check(w):
    return guard.differences(w, lambda d: d["field"] in ("registers", "count-held", "count-rejected", "count-cold", "stamps") and set(d["decisions"]) & MINE)


def probes(w):
    return guard.decisions(w)
