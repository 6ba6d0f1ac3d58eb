"""Bad frames never change state or satisfy a request."""
from ..gen import anywhere, read_op
from ..hist import History
from . import guard

RUNS = {"quick": 2000, "thorough": 30000}
BANKS = [(0x11, 4, 0, 60), (0x11, 4, 180, 60), (0x11, 3, 0, 60), (0x11, 3, 60, 60), (0x01, 4, 60, 30), (0x11, 4, 0, 30), (0x11, 3, 20, 7),
         (0x11, 4, 60, 60), (0x11, 4, 120, 60), (0x11, 3, 120, 60)]
BAD = {"bad-checksum", "ignored", "fingerprint"}
WRAPS = ("crc", "crc", "null", "func", "stub", "count")


def gen(r, i, tier):
    feed, t = [], 1.0
    for j in range(r.choice((0, 5, 15, 40))):
        t += r.choice((0.01, 0.5, 3)) * r.random()
        a, f, b, c = r.choice(BANKS) if r.random() < 0.6 else anywhere(r)
        it = {"t": round(t, 3), "a": a, "f": f, "b": b, "n": c, "v": r.choice(("data", "mixed", "same")), "id": j + 1}
        if r.random() < 0.7:
            it["wrap"] = r.choice(("crc", "crc", "error", "null", "susp", "susp", "almost", "func", "stub", "count"))
        if it.get("wrap") == "susp" and (f != 4 or c != 60):
            it["b"], it["n"], it["f"], it["a"] = r.choice((0, 60 * r.randrange(1092))), 60, 4, r.choice((0x11, a))
        feed.append(it)
    end = t + 20
    timeout = r.choice((0.4, 1.0, 2.0))
    cfg = {"client": {"tx_message_wait": r.choice((0.0, 0.05)), "tx_jitter": 0.0}, "seg": r.choice(("whole", "random", "bytes")),
           "coalesce": r.random() < 0.5, "lat": [0.001, r.choice((0.002, 0.1))]}
    faults = []
    n = 30
    for k in range(n):
        x = r.random()
        if x < 0.3:
            faults.append({"req": k, "act": "prebad", "wrap": r.choice(WRAPS + ("error",)), "lead": round(r.random(), 2)})
            if r.random() < 0.5:
                faults.append({"req": k, "act": "late", "s": round(timeout * r.choice((0.3, 0.7, 1.1)), 3)})
        elif x < 0.65:
            faults.append({"req": k, "act": r.choice(("crc", "crc0", "flip", "flipenv", "null", "err", "susp", "drop"))})
    keys = list(dict.fromkeys(BANKS + [k for k in (anywhere(r) for _ in range(5)) if k[1] != 22]))
    r.shuffle(keys)
    actors = [{"ops": [{"op": "connect"}]}]
    na = r.randrange(1, 5)
    for a in range(na):
        ops = []
        for _ in range(r.randrange(1, 6)):
            ops += [read_op(r.choice(keys[a::na]), timeout, r.randrange(3), retry_delay=r.choice((0, 0.1, 0.5))),
                    {"op": "sleep", "t": round(r.random() * 2, 3)}]
        actors.append({"start": round(0.05 + r.random(), 3), "ops": ops})
    return {"cfg": cfg, "caps": r.random() < 0.5, "dongles": [{"topo": {"model": "HYBRID_GEN1", "batteries": [0x32], "meters": [1]},
            "tseed": r.randrange(1 << 30), "lat": [0.005, r.choice((0.01, 0.1, 0.3))]}],
            "actors": actors, "feed": feed, "faults": faults, "horizon": 300}


build = guard.build


def check(w):
    v = guard.differences(w, lambda d: set(d["decisions"]) & BAD and d["field"] in (
        "registers", "stamps", "presence", "inverter-serial", "adapter-serial"))
    h = History(w)
    for r in w.ops:
        if r["op"]["op"] != "read" or r["t1"] is None:
            continue
        key = h.key_of(r["op"])
        if r["out"] == "ok":
            good = [f for f in h.good_frames(key) if r["t0"] - 1e-9 <= f.td <= r["t1"] + 1e-9 and f.f.values == r["val"]["values"]]
            if r["val"]["error"] or not good:
                v.append({"what": "completed-by-bad-frame", "op": r["op"], "t": [r["t0"], r["t1"]]})
                continue
            if r["op"]["retries"] == 0:
                at = h.attempts(r, key)
                errs = [e.td for e in h.err_frames(key) if at and at[0].t < e.td < min(f.td for f in good) - 1e-3]
                if errs:
                    v.append({"what": "error-did-not-consume-the-attempt", "op": r["op"], "error": errs[0], "answer": good[0].td})
        elif r["out"] == "TimeoutError":
            m = h.missed_answer(r, key)
            if m:
                v.append({"what": "bad-frame-ended-the-wait", "op": r["op"], **m})
        else:
            v.append({"what": "unexpected-outcome", "op": r["op"], "out": r["out"]})
    return v


def probes(w):
    d = guard.decisions(w)
    d["calls_ok"] = sum(1 for r in w.ops if r["out"] == "ok")
    d["calls_failed"] = sum(1 for r in w.ops if r["out"] == "TimeoutError")
    return d
