"""Spliced battery readings never replace good data."""
from ..feed import pack_feed
from . import guard

RUNS = {"quick": 1400, "thorough": 16000}
KINDS = ["ok", "near", "blip", "step", "step2", "step2", "multi", "multi", "cohort", "serial", "const", "surge", "short", "again", "noise", "zero"]
MINE = {"adopted-clean", "adopted-step", "step-held", "multi", "identity", "short-corrupt", "adopted-short", "const-held"}


def gen(r, i, tier):
    packs = r.sample(range(0x32, 0x38), r.choice((1, 1, 2, 3)))
    gap = r.choice((5, 30, 30, 60, 110))
    n = r.choice((8, 20, 60)) if tier == "quick" else r.choice((20, 60, 150))
    feed = pack_feed(r, packs, KINDS, gap, n // len(packs) + 4, warm=r.choice((2, 3)))
    end = (feed[-1]["t"] if feed else 1) + 5
    cfg = {"client": {"tx_message_wait": 0.0, "tx_jitter": 0.0}, "seg": r.choice(("whole", "random", "bytes")), "coalesce": r.random() < 0.5,
           "lat": [0.001, r.choice((0.002, 0.2))]}
    if r.random() < 0.4:
        cfg["client"]["splice_reject_heal_seconds"] = r.choice((30, 120, 600))
    if r.random() < 0.4:
        cfg["client"]["splice_heal_seconds"] = r.choice((60, 300))
    faults = [{"at": round(r.uniform(2, end), 2), "act": r.choice(("eof", "rst"))} for _ in range(r.choice((0, 0, 0, 1, 3)))]
    ops = [{"op": "call", "name": "keep", "until": end, "every": r.choice((0.3, 2.0))}]
    actors = [{"ops": ops}]
    if r.random() < 0.3:
        t = 3.0
        rd = [{"op": "sleep", "t": t}]
        for _ in range(r.randrange(1, 12)):
            rd += [{"op": "read", "addr": r.choice(packs), "func": 4, "base": 60, "count": 60, "timeout": 1.0, "retries": 0},
                   {"op": "sleep", "t": round(gap * r.random() * 2, 2)}]
        actors.append({"ops": rd})
    forget = guard.forgetting(r, [(a, "IR", 60, 60) for a in packs] * 4 + [(packs[0], "HR", 60, 60), (packs[0], "IR", 60, 30)], end) if r.random() < 0.15 else []
    return {"cfg": cfg, "caps": r.random() < 0.7, "dongles": [{"topo": {"model": "HYBRID_GEN1", "batteries": packs}, "tseed": r.randrange(1 << 30)}],
            "actors": actors + forget, "feed": feed, "faults": faults, "horizon": end + 60}


build = guard.build


def check(w):
    return guard.differences(w, lambda d: d["field"] in ("registers", "count-held", "count-rejected") and set(d["decisions"]) & MINE)


def probes(w):
    return guard.decisions(w)
