"""A battery's first reading must be corroborated."""
from ..feed import change, pack_feed
from . import guard

RUNS = {"quick": 2200, "thorough": 30000}
KINDS = ["ok", "near", "blip", "multi", "cohort", "serial", "const", "gap", "gap", "again", "noise", "zero", "impossible", "surge"]
FIRST = ("cold-held", "cold-refused", "adopted-cold")


def gen(r, i, tier):
    packs = r.sample(range(0x32, 0x38), r.choice((1, 1, 2, 4)))
    gap = r.choice((5, 30, 100, 145, 200, 290))
    feed = []
    # start: an adversarial sequence of first readings, so that many disagree
    for a in packs:
        t = 1.0 + r.random() * 3
        seq = []
        for _ in range(r.randrange(1, 8)):
            x = r.random()
            it = {"m": []}
            if x < 0.3:
                it = {"m": [change(r, r.random() < 0.7) for _ in range(r.randrange(1, 3))]}
            elif x < 0.45:
                it = {"m": [[k, "v", 0] for k in r.sample((16, 17, 18, 19), r.choice((1, 2, 3, 4)))]}
            elif x < 0.55:
                it = {"m": [], "ser": r.randrange(1, 3)}
            elif x < 0.65:
                it = {"m": [[r.choice((37, 38)), "v", r.choice((7, 8))]]}
            elif x < 0.72:
                it = {"m": [], "wrap": r.choice(("crc", "error", "susp", "zero", "null"))}
            elif x < 0.78:
                it = {"m": [[k, "v", 0] for k in range(16)]}
            elif x < 0.85 and seq:
                it = dict(seq[-1][1])
            if r.random() < 0.3:
                it["keep"] = True
            if r.random() < 0.1:
                it["twice"] = r.choice((0.0, 0.01))
            seq.append((gap * r.choice((1, 1, 1, 0.3, 1.02, 2.1)) if r.random() < 0.85 else r.choice((299.5, 300.5, 301, 700)), it))
            if r.random() < 0.25:
                seq.append((gap, dict(it)))
        for g, it in seq:
            t += g
            feed.append({"t": round(t, 3), "a": a, **it})
    feed.sort(key=lambda x: x["t"])
    last = feed[-1]["t"] if feed else 1
    if r.random() < 0.4:
        feed += pack_feed(r, packs, KINDS, gap, 5, t0=last + 10)
    for n, it in enumerate(feed):
        it["id"] = n + 1
    end = feed[-1]["t"] + 5
    cfg = {"client": {"tx_message_wait": 0.0, "tx_jitter": 0.0}, "seg": r.choice(("whole", "random", "bytes")), "coalesce": r.random() < 0.5,
           "lat": [0.001, r.choice((0.002, 0.2))]}
    faults = [{"at": round(r.uniform(2, end), 2), "act": r.choice(("eof", "rst"))} for _ in range(r.choice((0, 0, 0, 1, 3)))]
    actors = [{"ops": [{"op": "call", "name": "keep", "until": end, "every": r.choice((0.3, 2.0))}]}]
    if r.random() < 0.25:
        rd = [{"op": "sleep", "t": 2.0}]
        for _ in range(r.randrange(1, 8)):
            rd += [{"op": "read", "addr": r.choice(packs), "func": 4, "base": 60, "count": 60, "timeout": 1.0, "retries": r.randrange(2)},
                   {"op": "sleep", "t": round(gap * r.random() * 2, 2)}]
        actors.append({"ops": rd})
    forget = guard.forgetting(r, [(a, "IR", 60, 60) for a in packs] * 4 + [(packs[0], "HR", 60, 60), (packs[0], "IR", 60, 30)], end) if r.random() < 0.3 else []
    return {"cfg": cfg, "caps": r.random() < 0.5, "dongles": [{"topo": {"model": "HYBRID_GEN1", "batteries": packs}, "tseed": r.randrange(1 << 30)}],
            "actors": actors + forget, "feed": feed, "faults": faults, "horizon": end + 60}


build = guard.build


def check(w):
    return guard.differences(w, lambda d: d["field"] in ("registers", "stamps", "presence", "count-cold") and set(d["decisions"]) & set(FIRST))


def probes(w):
    return guard.decisions(w)
