"""An all-zero dropout never wipes good data."""
from ..gen import anywhere, read_op
from . import guard

RUNS = {"quick": 2200, "thorough": 30000}
BANKS = [(0x11, 4, 0, 60), (0x11, 4, 60, 60), (0x11, 4, 180, 60), (0x11, 3, 0, 60), (0x11, 3, 60, 60), (0x11, 3, 120, 60), (0x31, 4, 60, 60),
         (0x01, 4, 60, 30), (0x05, 4, 60, 60), (0x70, 4, 60, 60), (0x50, 4, 60, 60), (0x50, 4, 120, 60), (0x45, 4, 0, 60), (0x45, 3, 0, 60),
         (0x11, 4, 30, 60), (0x11, 4, 0, 30), (0x11, 4, 0, 1), (0x11, 4, 59, 2), (0x11, 3, 240, 60), (0x01, 4, 60, 60)]
PACK = [(0x32, 4, 60, 60), (0x33, 4, 60, 60), (0x33, 4, 60, 30)]


def gen(r, i, tier):
    banks = r.sample(BANKS, r.randrange(1, 6)) + (r.sample(PACK, r.randrange(1, 3)) if r.random() < 0.4 else [])
    banks += [anywhere(r) for _ in range(r.choice((0, 0, 1, 3)))]
    feed, t = [], 1.0
    n = r.choice((6, 15, 40))
    for j in range(n):
        t += r.choice((0.01, 1, 5, 30, 200, 400)) * r.random()
        a, f, b, c = r.choice(banks)
        if a in (0x32, 0x33):
            it = {"t": t, "a": a, "m": [], "short": [b, c]}
            x = r.random()
            if x < 0.35:
                it["wrap"] = "zero"
            elif x < 0.5:
                it["m"] = [[k, "v", 0] for k in r.sample(range(30, 36), 3)]
        else:
            it = {"t": t, "a": a, "f": f, "b": b, "n": c, "v": r.choice(("zero", "zero", "data", "data", "mixed", "same"))}
            if it["v"] != "zero" and r.random() < 0.08:
                it["wrap"] = r.choice(("crc", "error", "susp"))
            if r.random() < 0.06:
                it["ser"] = r.choice(("other", "blank", "bad"))
        if r.random() < 0.08:
            it["twice"] = r.choice((0.0, 0.02))
        it["t"] = round(t, 3)
        it["id"] = j + 1
        feed.append(it)
    end = t + 5
    cfg = {"client": {"tx_message_wait": 0.0, "tx_jitter": 0.0}, "seg": r.choice(("whole", "random", "bytes")), "coalesce": r.random() < 0.5,
           "lat": [0.001, r.choice((0.002, 0.2))]}
    faults = [{"at": round(r.uniform(2, end), 2), "act": r.choice(("eof", "rst"))} for _ in range(r.choice((0, 0, 0, 1, 3)))]
    for _ in range(r.choice((0, 0, 2, 6))):
        faults.append({"req": r.randrange(8), "act": r.choice(("zero", "zero", "drop", "dup"))})
    actors = [{"ops": [{"op": "call", "name": "keep", "until": end, "every": r.choice((0.3, 2.0))}]}]
    if r.random() < 0.4:
        rd = [{"op": "sleep", "t": 2.0}]
        for _ in range(r.randrange(1, 8)):
            k = r.choice([b for b in banks if b[0] == 0x11 and b[3] >= 30 and b[2] != 240] or [(0x11, 4, 0, 60)])
            rd += [read_op(k, 1.0, r.randrange(2)), {"op": "sleep", "t": round(r.random() * end / 4, 2)}]
        actors.append({"ops": rd})
    return {"cfg": cfg, "caps": r.random() < 0.6, "dongles": [{"topo": {"model": "HYBRID_GEN1", "batteries": [0x32, 0x33]}, "tseed": r.randrange(1 << 30)}],
            "actors": actors, "feed": feed, "faults": faults, "horizon": end + 60}


build = guard.build


def check(w):
    def mine(d):
        if "zero-dropout" in d["decisions"]:
            return d["field"] in ("registers", "stamps", "presence")
        return d["field"] == "registers" and set(d["decisions"]) & {"adopted", "no-device"}
    return guard.differences(w, mine)


def probes(w):
    return guard.decisions(w)
