"""Repeated trouble is coalesced in the log, never swallowed."""
import re

from ..feed import change, pack_feed, surge_change
from . import guard

RUNS = {"quick": 600, "thorough": 10000}
RULE = ("a run counts when at least two warnings of a burst were due; two runs are the same when their ordered event kinds coincide")
WINDOW = 300


def reject_feed(r, packs):
    """Long stretches of rejected readings of a few patterns, with recoveries in between."""
    items = []
    for a in packs:
        gap = r.choice((5, 30, 60, 110, 290))
        t = 1 + r.random() * gap
        for _ in range(3):
            items.append({"t": t, "a": a, "m": []})
            t += gap
        pats = []
        for _ in range(r.randrange(1, 4)):
            k = r.random()
            if k < 0.4:
                pats.append({"m": [change(r, True) for _ in range(r.randrange(2, 5))]})
            elif k < 0.6:
                pats.append({"m": [[i, "v", 0] for i in r.sample((16, 17, 18, 19, 43, 44), r.randrange(2, 5))]})
            elif k < 0.85:
                pats.append({"m": [], "ser": r.randrange(1, 3)})
            else:
                pats.append({"m": surge_change(r)})
        for _ in range(r.randrange(2, 7)):
            p = r.choice(pats)
            for _ in range(r.choice((1, 1, 2, 3, 10, 25))):
                items.append({"t": t, "a": a, "drift": r.random() < 0.7, **p})
                t += gap * r.choice((1, 1, 1, 0.2))
                if r.random() < 0.07:
                    items.append({"t": t, "a": a, **r.choice(({"m": [], "wrap": "crc"}, {"m": [], "short": [60, 1]}, {"m": [], "short": [100, 3]}, {"m": [], "wrap": "error"},
                                                              {"m": [[20, "d", 5000]]}, {"m": [[38, "v", 77]]}, {"m": [], "wrap": "zero"}))})
                    t += gap * 0.3
            if r.random() < 0.6:
                items += [{"t": t + gap * k, "a": a, "m": []} for k in range(r.randrange(1, 3))]
                t += gap * 2
            if r.random() < 0.15:
                t += r.choice((310, 1000))
    items.sort(key=lambda x: x["t"])
    for n, it in enumerate(items):
        it["t"], it["id"] = round(it["t"], 3), n + 1
    return items


def churn(r, end):
    """Instants at which the peer drops the connection."""
    out, t = [], r.uniform(1, 30)
    while t < end and len(out) < 120:
        for _ in range(r.choice((1, 1, 2, 5, 20, 40))):
            out.append({"at": round(t, 3), "act": r.choice(("eof", "eof", "eof", "eof", "eof", "rst", "etimedout"))})
            t += r.choice((r.uniform(3, 20), r.uniform(3, 20), r.uniform(3, 120), r.uniform(150, 298)))
        t += r.choice((r.uniform(301, 330), r.uniform(280, 299.5), r.uniform(400, 5000)))
    return [f for f in out if f["at"] < end]


def gen(r, i, tier):
    packs = r.sample(range(0x32, 0x38), r.choice((1, 1, 2, 3)))
    mode = r.choice(("drops", "rejects", "both"))
    feed = reject_feed(r, packs) if mode != "drops" else []
    if mode == "rejects" and r.random() < 0.2:
        feed = pack_feed(r, packs, ["ok", "multi", "serial", "cohort", "blip", "short", "gap", "const"], r.choice((30, 110)), 40, warm=2)
    end = max((feed[-1]["t"] if feed else 1), r.choice((600, 4000, 20000)) if mode == "drops" else 1) + 5
    faults = churn(r, end) if mode == "drops" else [f for f in churn(r, end) if r.random() < 0.5] if mode == "both" else []
    cfg = {"client": {"tx_message_wait": 0.0, "tx_jitter": 0.0, "connect_timeout": 1.0}, "seg": r.choice(("whole", "random")), "coalesce": r.random() < 0.5,
           "lat": [0.001, r.choice((0.002, 0.1))]}
    if r.random() < 0.25:
        cfg["client"]["splice_reject_heal_seconds"] = r.choice((60, 600))
    for _ in range(r.choice((0, 0, 2))):
        faults.append({"connect": r.randrange(10), "act": r.choice(("refuse", "hang", "slow")), "delay": 0.5})
    actors = [{"ops": [{"op": "call", "name": "keep", "until": end, "every": r.choice((0.3, 2.0))}]}]
    if r.random() < 0.4:
        ops = []
        for _ in range(r.randrange(1, 6)):
            ops += [{"op": "sleep", "t": round(r.uniform(1, end / 3), 3)}, {"op": "close"}]
        actors.append({"ops": ops})
    if r.random() < 0.3:
        actors.append({"ops": [x for _ in range(r.randrange(1, 10)) for x in (
            {"op": "sleep", "t": round(r.uniform(1, end / 5), 3)}, {"op": "read", "addr": 0x11, "func": 3, "base": 60, "count": 60, "timeout": 0.5, "retries": 0})]})
    return {"cfg": cfg, "caps": r.random() < 0.7, "dongles": [{"topo": {"model": "HYBRID_GEN1", "batteries": packs}, "tseed": r.randrange(1 << 30)}],
            "actors": actors, "feed": feed, "faults": faults, "horizon": end + 60}


build = guard.build


def drops(w):
    """Instants of clean drops by the peer while the client meant to stay connected; None when that cannot be told."""
    out = []
    for k, c in sorted(w.conn_info.items()):
        if c["lost_kind"] != "eof":
            continue
        closed = c["closed"][0]
        mine = [o for o in w.ops if o["op"]["op"] == "close" and o["t0"] - 1e-6 <= c["lost_at"] and (o["t1"] is None or o["t1"] >= c["lost_at"] - 1e-6)]
        again = [o for o in w.ops if o["op"]["op"] == "connect" and o["t0"] <= c["lost_at"] and (o["t1"] is None or o["t1"] >= c["lost_at"])]
        if mine or again or closed is not None and closed < c["lost_at"] - 1e-9:
            return None
        out.append(c["lost_at"])
    return out


def drop_warnings(times):
    """(instant, tally) of every warning due."""
    out, last, warned, n = [], None, None, 0
    for t in times:
        if last is not None and t - last >= WINDOW:
            warned, n = None, 0
        last = t
        n += 1
        if warned is None or t - warned >= WINDOW:
            out.append((t, n))
            warned, n = t, 0
    return out


def burst_warnings(log):
    """Per device: the warnings due, from the reference's decisions."""
    out, open_ = {}, {}
    for wall, addr, what, sig in log:
        o = out.setdefault(addr, [])
        b = open_.get(addr)
        if what == "commit":
            if b is not None and b["n"] > 1:
                o.append(("cleared", b["n"], wall - b["start"]))
            open_.pop(addr, None)
        elif b is None or b["sig"] != sig:
            open_[addr] = {"sig": sig, "start": wall, "n": 1, "warned": wall}
            o.append(("rejected", 1, 0))
        else:
            b["n"] += 1
            if wall - b["warned"] >= WINDOW:
                b["warned"] = wall
                o.append(("rejected", b["n"], wall - b["start"]))
    return out


def check(w):
    v = []
    w.extra["due"] = 0
    times = drops(w)
    if times is not None:
        want = drop_warnings(times)
        w.extra["due"] = len(want)
        got = [(t, int(m.group(1)) if (m := re.search(r"(\d+) drops", msg)) else 1) for t, lvl, msg, _ in w.logs if lvl >= 30 and "at EOF" in msg]
        # a tie between a drop and a window's end is not decided
        if not any(abs(b - a - WINDOW) < 1e-3 for i, a in enumerate(times) for b in times[i + 1:i + 200]):
            if [n for _, n in got] != [n for _, n in want] or any(abs(a[0] - b[0]) > 0.05 for a, b in zip(got, want)):
                k = next((k for k in range(max(len(got), len(want))) if k >= len(got) or k >= len(want) or got[k][1] != want[k][1] or abs(got[k][0] - want[k][0]) > 0.05), 0)
                v.append({"what": "drop-warnings", "index": k, "got": got[k:k + 3], "want": want[k:k + 3], "drops": [x for x in times if not want[k:] or x <= want[k][0]][-6:]})
    s = w.extra["shadow"][0]
    if s.diff is None and s.comparing and not s.pend:
        walls = sorted(x[0] for x in s.ref.log)
        tie = False
        for addr, want in burst_warnings(s.ref.log).items():
            w.extra["due"] += len(want)
            mine = sorted(x[0] for x in s.ref.log if x[1] == addr)
            tie = any(abs(b - a - WINDOW) < 1e-3 for i, a in enumerate(mine) for b in mine[i + 1:i + 100])
            if tie:
                continue
            got = []
            for _t, lvl, msg, _ in w.logs:
                if lvl < 30 or f"0x{addr:02x}" not in msg:
                    continue
                m = re.search(r"(\d+) rejections over (\d+)s", msg)
                if "burst cleared" in msg:
                    got.append(("cleared", int(m.group(1)), int(m.group(2))))
                elif "sub-bus splice" in msg:
                    got.append(("rejected", int(m.group(1)) if m else 1, int(m.group(2)) if m else 0))
            if len(got) != len(want) or any(a[:2] != b[:2] or abs(a[2] - b[2]) > 1 for a, b in zip(got, want)):
                k = next((k for k in range(max(len(got), len(want))) if k >= len(got) or k >= len(want) or got[k][:2] != want[k][:2] or abs(got[k][2] - want[k][2]) > 1), 0)
                v.append({"what": "burst-warnings", "addr": addr, "index": k, "got": got[k:k + 3], "want": want[k:k + 3]})
        w.extra["walls"] = len(walls)
    return v


def nontrivial(w):
    return w.extra.get("due", 0) >= 2


def probes(w):
    out = guard.decisions(w)
    out["warnings_due"] = w.extra.get("due", 0)
    return out
