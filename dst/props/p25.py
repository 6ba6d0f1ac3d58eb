"""Identity comes only from the inverter itself."""
from ..gen import anywhere, read_op
from ..topo import serial
from . import guard

RUNS = {"quick": 2000, "thorough": 30000}
BANKS = [(0x11, 4, 0, 60), (0x11, 3, 0, 60), (0x31, 4, 60, 60), (0x31, 3, 0, 60), (0x01, 4, 60, 30), (0x32, 4, 60, 60), (0x33, 4, 60, 60),
         (0x50, 4, 60, 60), (0x70, 4, 60, 60), (0xA0, 4, 60, 60), (0x21, 4, 0, 10), (0x11, 4, 180, 60), (0x30, 4, 0, 60), (0x12, 3, 0, 60),
         (0x10, 4, 0, 60), (0x00, 4, 0, 60)]


def gen(r, i, tier):
    feed, t = [], 1.0
    ts = r.randrange(1 << 30)
    for j in range(r.choice((4, 12, 30))):
        t += r.choice((0.0, 0.01, 1, 30)) * r.random()
        a, f, b, c = r.choice(BANKS) if r.random() < 0.75 else anywhere(r)
        if 0x32 <= a <= 0x37:
            it = {"a": a, "m": [[40, "d", r.choice((0, 20))]]}
        else:
            it = {"a": a, "f": f, "b": b, "n": c, "v": r.choice(("zero", "data", "mixed")), "ser": r.choice(("own", "own", "other", "blank"))}
        it.update(t=round(t, 3), id=j + 1)
        if r.random() < 0.6:
            it["envser"] = serial(f"env{r.randrange(4)}", ts)
        if r.random() < 0.3:
            it["ad"] = serial(f"ad{r.randrange(3)}", ts)
        if r.random() < 0.4:
            it["wrap"] = r.choice(("crc", "crc", "error", "error", "null", "susp", "func"))
        feed.append(it)
    end = t + 10
    cfg = {"client": {"tx_message_wait": 0.0, "tx_jitter": 0.0}, "seg": r.choice(("whole", "random", "bytes")), "coalesce": r.random() < 0.5,
           "lat": [0.001, r.choice((0.002, 0.2))]}
    faults = [{"at": round(r.uniform(2, end), 2), "act": r.choice(("eof", "rst"))} for _ in range(r.choice((0, 0, 0, 1, 2)))]
    for k in range(r.choice((0, 6))):
        faults.append({"req": r.randrange(10), "act": r.choice(("flipenv", "err", "crc", "null", "hb", "lan"))})
    actors = [{"ops": [{"op": "call", "name": "keep", "until": end, "every": 0.5}]}]
    if r.random() < 0.5:
        rd = [{"op": "sleep", "t": 0.5}]
        for _ in range(r.randrange(1, 8)):
            rd += [r.choice((read_op((0x11, 3, 0, 60)), read_op((0x32, 4, 60, 60)), read_op((1, 4, 60, 30)),
                             {"op": "write", "reg": 20, "val": 1, "timeout": 1.0, "retries": 0})),
                   {"op": "sleep", "t": round(r.random() * end / 6, 2)}]
        actors.append({"ops": rd})
    return {"cfg": cfg, "caps": r.random() < 0.6, "dongles": [{"topo": {"model": "HYBRID_GEN1", "batteries": [0x32, 0x33], "meters": [1]}, "tseed": ts}],
            "actors": actors, "feed": feed, "faults": faults, "horizon": end + 60}


build = guard.build


def check(w):
    return guard.differences(w, lambda d: d["field"] in ("inverter-serial", "adapter-serial"))


def probes(w):
    return guard.decisions(w)
