"""Every heartbeat is answered exactly once."""
from ..gen import ERRNOS, client_cfg, keys_for, net_cfg, read_op, write_op
from ..hist import History
from ..topo import TOPO_POOL
from ..world import World

RUNS = {"quick": 3000, "thorough": 40000}
EPS = 1e-6


def gen(r, i, tier):
    topo = r.choice([t for t in TOPO_POOL if "EMS" not in t["model"]])
    cfg = {"client": client_cfg(r), **net_cfg(r)}
    types = [t for t in range(256) if t != 0x59]
    r.shuffle(types)
    faults = []
    flood = r.random() < 0.2
    for _ in range(r.randrange(1, 25)):
        n = r.choice((1, 1, 1, 2, 3)) if not flood else r.choice((1, 5, 25, 60))
        f = {"act": "hb", "type": types.pop(), "n": n}
        x = r.random()
        if x < 0.5:
            f["at"] = round(r.uniform(0.02, 8), 3)
        else:
            f["req"] = r.randrange(40)
            f["lead"] = round(r.random(), 2)
        faults.append(f)
    if flood:
        faults = faults[:6]
    keys = keys_for(topo)
    r.shuffle(keys)
    life = [{"op": "connect"}]
    for _ in range(r.choice((0, 0, 1, 2))):
        life += [{"op": "sleep", "t": round(r.uniform(0.2, 4), 3)}] + r.choice(([{"op": "close"}], [])) + [{"op": "connect"}]
    actors = [{"ops": life}]
    for _ in range(r.randrange(0, 6)):
        if not keys:
            break
        ks = [keys.pop() for _ in range(min(len(keys), r.randrange(1, 4)))]
        ops = []
        for _ in range(r.randrange(1, 6)):
            ops.append(read_op(r.choice(ks), r.choice((0.5, 1.0, 2.0)), r.randrange(2)))
            if r.random() < 0.4:
                ops.append({"op": "sleep", "t": round(r.uniform(0, 1), 3)})
        actors.append({"start": round(0.02 + r.random(), 3), "ops": ops})
    if r.random() < 0.3:
        actors.append({"start": 0.05, "ops": [write_op(r.choice((20, 27, 56)), r.randrange(1, 60000), 1.0, 0)]})
    if r.random() < 0.2 and not flood:  # many calls at once: the reply queues behind them
        more = [(0x11, 3, b, 7) for b in range(1, 60, 4)]
        actors += [{"start": round(0.5 + r.random() * 0.05, 3), "ops": [read_op(k, 5.0, 0)]} for k in more[:r.randrange(3, 12)]]
    elif r.random() < 0.15:  # more than the queue holds
        actors += [{"start": round(0.5 + r.random() * r.choice((0.05, 2)), 3), "ops": [read_op((0x11, 4, b, 5), r.choice((0.4, 1.0, 5.0)), 0)]}
                   for b in range(61, 61 + r.randrange(18, 34))]
    for _ in range(r.choice((0, 0, 1, 2))):
        f = {"act": r.choice(("eof", "rst", "etimedout")), "errno": r.choice(ERRNOS), "delay": 0.0}
        f.update({"at": round(r.uniform(0.1, 8), 3)} if r.random() < 0.5 else {"req": r.randrange(30), "delay": round(r.random() * 0.1, 3)})
        faults.append(f)
    for _ in range(r.choice((0, 0, 5))):
        faults.append({"req": r.randrange(30), "act": r.choice(("drop", "crc", "null", "unsol", "lan", "late")), "s": 0.7})
    return {"cfg": cfg, "dongles": [{"topo": topo, "lat": [0.004, r.choice((0.01, 0.1))]}], "actors": actors, "faults": faults, "horizon": 4000,
            "settle": 120.0 if flood else 15.0}


def build(plan):
    return World(plan)


def check(w):
    v = []
    h = History(w)
    pace = w.clients[0].tx_message_wait + w.clients[0].tx_jitter
    hbs = [x for x in w.rx if x.f is not None and x.f.kind == "heartbeat" and x.td is not None]
    reps = [x for x in w.tx if x.f is not None and x.f.kind == "heartbeat"]
    byconn = {}
    for x in hbs:
        byconn.setdefault(x.conn, []).append(x)
    pending = 0
    for cid in w.conn_info:
        c = w.conn_info[cid]
        got = sorted(byconn.get(cid, []), key=lambda x: x.seqd)
        sent = sorted([x for x in reps if x.conn == cid], key=lambda x: x.seq)
        mine = sorted([x for x in w.tx if x.conn == cid], key=lambda x: x.seq)
        if [x.f.typ for x in sent] != [x.f.typ for x in got][:len(sent)]:
            v.append({"what": "replies-are-not-the-heartbeats-received", "conn": cid, "received": [(x.td, x.f.typ) for x in got],
                      "sent": [(x.t, x.f.typ) for x in sent]})
            continue
        died = min([t for t in (c["lost_at"], c["closed"][0]) if t is not None] or [1e18])
        for k, x in enumerate(got):
            reply = sent[k] if k < len(sent) else None
            if reply is not None and reply.seq < x.seqd:
                v.append({"what": "reply-before-heartbeat", "conn": cid, "type": x.f.typ})
                continue
            end = reply.t if reply is not None else died
            # busy from the heartbeat to its reply: the link never idles longer than the pace
            between = [y.t for y in mine if y.t >= x.td - EPS and y.t <= end + EPS]
            last = x.td
            for t in between + ([] if reply is not None else [min(died, w.now)]):
                if t - last > pace + 0.02:
                    v.append({"what": "reply-late-on-an-idle-link" if reply is not None else "heartbeat-not-answered", "conn": cid, "type": x.f.typ,
                              "received": x.td, "idle": [last, t]})
                    break
                last = t
            # and only frames already waiting go first
            ahead = [y for y in mine if y.seq > x.seqd and (reply is None or y.seq < reply.seq) and y.f is not None and y.f.kind != "heartbeat"]
            waiting = [o for o in w.ops if o["op"]["op"] in ("read", "write") and o["t0"] <= x.td + EPS and (o["t1"] is None or o["t1"] >= x.td - EPS)]
            queued = [y for y in got[:k] if not any(z.seq < x.seqd for z in sent[got.index(y):got.index(y) + 1])]
            if len(waiting) + len(queued) < 18 and len(ahead) > len(waiting) + 1:
                v.append({"what": "reply-overtaken", "conn": cid, "type": x.f.typ, "ahead": len(ahead), "waiting": len(waiting)})
            pending = max(pending, len(queued))
        w.extra["most_queued"] = max(w.extra.get("most_queued", 0), pending)
    for o in w.ops:
        if o["op"]["op"] not in ("read", "write") or o["out"] == "ok":
            continue
        m = h.missed_answer(o, h.key_of(o["op"]))
        if m is not None:
            v.append({"what": "request-disturbed", "op": o["op"], "out": o["out"], **m})
    for o in w.ops:
        if o["out"] == "ok" and o["op"]["op"] in ("read", "write"):
            fs = [x for x in h.good_frames(h.key_of(o["op"])) if o["s0"] <= x.seqd <= o["s1"]]
            if not fs:
                v.append({"what": "request-satisfied-without-its-answer", "op": o["op"]})
    return v


def probes(w):
    n = sum(1 for x in w.rx if x.f is not None and x.f.kind == "heartbeat" and x.td is not None)
    return {"heartbeats": n, "answered": sum(1 for x in w.tx if x.f is not None and x.f.kind == "heartbeat"),
            "flooded": int(w.extra.get("most_queued", 0) >= 20)}


def nontrivial(w):
    return any(k.endswith("hb") for k in w.fired)
