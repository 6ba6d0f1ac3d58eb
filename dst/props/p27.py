"""Clients in one process are isolated."""
from ..feed import expand, keeper, pack_feed
from ..gen import WRITE_REGS, conn_fault, keys_for, net_cfg, read_op, req_conn_fault, write_op
from ..world import World
from ..run import in_fork
from . import p12, p13, p22
from .p18 import POOL

RUNS = {"quick": 700, "thorough": 10000}
RULE = ("a run counts when at least two clients received data; each run is executed once together and once per client alone; two runs are the "
        "same when their ordered event kinds coincide")
KINDS = sorted(set(p12.KINDS) | set(getattr(p13, "KINDS", [])))


def profile(r, c, topo, span):
    """(actors, faults, feed) of one client."""
    actors, faults, feed = [], [], []
    kind = r.choice(("poll", "poll", "full", "full", "guard", "guard", "churn"))
    until = {"op": "call", "name": "keep", "until": span, "every": r.choice((0.3, 2.0))}
    actors.append({"ops": [until] if kind != "churn" else [x for _ in range(r.randrange(2, 8)) for x in
                                                            ({"op": "connect"}, {"op": "sleep", "t": round(r.uniform(0.1, 60), 2)}, r.choice(({"op": "close"}, {"op": "sleep", "t": 1.0})))]})
    if kind == "guard" and topo.get("batteries"):
        feed = pack_feed(r, topo["batteries"][:2], KINDS, r.choice((5, 30)), 20, warm=2)
    if kind == "full":
        ops = [{"op": "sleep", "t": 0.2}, {"op": "detect", "timeout": 0.5, "retries": 1, "probe_timeout": 0.2, "probe_retries": 0},
               {"op": "load_config", "timeout": 0.5, "retries": 1}]
        for _ in range(r.randrange(1, 5)):
            ops += [{"op": "refresh", "timeout": 0.5, "retries": r.randrange(2)}, {"op": "sleep", "t": round(r.uniform(0.1, 30), 2)}]
        actors.append({"ops": ops})
    keys = keys_for(topo)
    for _ in range(r.randrange(1, 4)):
        ops = [{"op": "sleep", "t": round(r.uniform(0.1, 2), 3)}]
        for _ in range(r.randrange(1, 8)):
            x = r.random()
            if x < 0.7:
                ops.append(read_op(r.choice(keys), r.choice((0.4, 1.0)), r.randrange(3)))
            elif x < 0.9:
                ops.append(write_op(r.choice(WRITE_REGS), r.randrange(65536), 0.8, r.randrange(2)))
            else:
                ops.append({"op": "probe", "timeout": 0.5, "retries": 1})
            if r.random() < 0.5:
                ops.append({"op": "sleep", "t": round(r.choice((1, 20)) * r.random(), 3)})
        actors.append({"ops": ops})
    if r.random() < 0.3:
        actors.append({"start": round(r.random(), 3), "ops": [{"op": "capture", "duration": round(r.uniform(1, 40), 2)}]})
    for a in actors:
        a["client"] = c
    # the same misfortunes may strike several clients at the same instants
    if r.random() < 0.7:
        for n in range(40):
            if r.random() < 0.25:
                f = {"req": n, "act": r.choice(("drop", "late", "crc", "err", "null", "dup", "hb", "unsol", "lan", "susp", "zero", "flip", "trunc", "garbage", "shape"))}
                f.update({"late": {"s": round(r.uniform(0.2, 3), 2)}, "trunc": {"frac": round(r.random(), 2)}, "garbage": {"n": r.randrange(1, 300)}}.get(f["act"], {}))
                faults.append(f)
        for _ in range(r.choice((0, 1, 3))):
            faults.append(conn_fault(r, r.choice((1.0, 2.5, 7.0)) if r.random() < 0.4 else r.uniform(0.1, span)) if r.random() < 0.5 else req_conn_fault(r, r.randrange(30)))
        for _ in range(r.choice((0, 0, 2, 6))):
            faults.append({"at": round(r.uniform(0.1, span), 2), "act": "raw", "raw": p22.special(r).hex(), "intact": False})
        if r.random() < 0.2:
            faults.append({"connect": r.randrange(3), "act": r.choice(("hang", "refuse", "slow")), "delay": round(r.random(), 2)})
    return actors, [{**f, "d": c} for f in faults], feed


def gen(r, i, tier):
    n = r.choice((2, 2, 2, 3, 4))
    same = r.random() < 0.7
    topo = r.choice(POOL)
    twin = r.random() < 0.3  # even the same hardware identity
    span = r.choice((5, 20, 100))
    plan = {"cfg": {"client": {"tx_message_wait": r.choice((0.0, 0.05, 0.25)), "tx_jitter": 0.0, "connect_timeout": 1.0}, **net_cfg(r)}, "clients": [], "dongles": [],
            "actors": [], "faults": [], "feeds": [], "horizon": 8000, "settle": 5.0}
    for c in range(n):
        t = topo if same else r.choice(POOL)
        plan["clients"].append({"d": c, "kw": {"splice_heal_seconds": r.choice((60, 900)), "splice_reject_heal_seconds": r.choice((None, 60))} if r.random() < 0.3 else {}})
        plan["dongles"].append({"topo": t, "tseed": 7 if twin else r.randrange(1 << 30), "lat": [0.004, r.choice((0.01, 0.1, 0.5))],
                                "absent_bank": r.choice(("error", "silent"))})
        a, f, fd = profile(r, c, t, span)
        plan["actors"] += a
        plan["faults"] += f
        plan["feeds"].append(fd)
    if r.random() < 0.2:  # small send buffers and a link that takes nothing for a while
        plan["cfg"].update(kernel_cap=r.choice((30, 60, 300)), hiwater=r.choice((0, 20, 60)))
        for c in range(n):
            for _ in range(r.choice((0, 1, 3))):
                plan["faults"].append({"at": round(r.uniform(0.1, span), 3), "act": "stall_rx", "d": c, "for": round(r.choice((0.5, 4, 15, 60)) * r.random(), 3)})
    if r.random() < 0.3:  # one client copies another's script exactly
        src = [a for a in plan["actors"] if a["client"] == 0]
        plan["actors"] = [a for a in plan["actors"] if a["client"] != 1] + [{**a, "client": 1} for a in src]
        plan["actors"].sort(key=lambda a: a["client"])
    return plan


def build(plan, only=None):
    p = dict(plan)
    fs = list(plan["faults"])
    for c, items in enumerate(plan.get("feeds", ())):
        fs += expand({"feed": items, "dongles": plan["dongles"]}, c)
    p["faults"] = sorted(fs, key=lambda f: f.get("at", 0))
    # every client idles until all scripted events are over, so that runs of different length end in comparable states
    end = max([f["at"] for f in fs if "at" in f] + [100]) + 60
    p["actors"] = plan["actors"] + [{"client": c, "ops": [{"op": "sleep", "t": end}]} for c in sorted({a["client"] for a in plan["actors"]})]
    if only is not None:
        p["actors"] = [a for a in p["actors"] if a["client"] == only]
        p["faults"] = [f for f in p["faults"] if f.get("d", 0) == only]
    alone = None
    if only is None:  # each in a process of its own, before anything ran here: nothing shared can reach them
        alone = {c: in_fork(lambda c=c: by_itself(plan, c)) for c in sorted({a["client"] for a in plan["actors"]})}
    w = World(p)
    w.extra["alone"] = alone
    w.extra["calls"] = {"keep": keeper}
    w.extra["plan"] = plan
    return w


def by_itself(plan, c):
    w = build(plan, c)
    w.run()
    return history(w, c)


def history(w, c):
    mine = [k for k in sorted(w.conn_info) if w.conn_info[k]["client"] == c]
    pos = {k: n for n, k in enumerate(mine)}
    ops = [o for o in w.ops if o["client"] == c]
    p = w.clients[c].plant

    def at(t):
        return None if t is None else round(t, 6)
    st = w.plant_state(c)
    for name in ("splice_held_count", "splice_reject_count", "cold_start_held_count", "retry_count"):
        st[name] = dict(getattr(p, name, {}) or {})
    st["caps"] = repr(p.capabilities)
    return {
        "calls": [(o["op"]["op"], at(o["t0"]), at(o["t1"]), o["out"], repr(o["val"]), o.get("connected_after")) for o in ops],
        "transmitted": [(pos[x.conn], at(x.t), x.raw) for x in w.tx if x.client == c],
        "connections": [(at(w.conn_info[k]["open"]), at(w.conn_info[k]["closed"][0]), at(w.conn_info[k]["lost_at"]), w.conn_info[k]["lost_kind"]) for k in mine],
        "sink": [[(at(x[0]), x[2], x[3]) for x in o.get("sink", ())] for o in ops],
        "log": [(at(x[0]), x[1], x[2]) for x in w.logs if x[3] == c and x[1] >= 30 and " at 0x" not in x[2]],
        **{k: repr(sorted(v.items(), key=repr)) if isinstance(v, dict) else repr(v) for k, v in st.items()},
    }


def check(w):
    v = []
    used = sorted({a["client"] for a in w.extra["plan"]["actors"]})
    if len(used) < 2:
        return v
    w.extra["got"] = len({w.conn_info[x.conn]["client"] for x in w.rx if x.td is not None})
    for c in used:
        a, b = history(w, c), w.extra["alone"][c]
        for k in a:
            if a[k] != b[k]:
                n = next((i for i in range(max(len(a[k]), len(b[k]))) if a[k][i:i + 1] != b[k][i:i + 1]), -1)
                lo = max(n - 40, 0) if isinstance(a[k], str) else n
                hi = n + 80 if isinstance(a[k], str) else n + 1
                v.append({"what": "depends-on-other-clients", "client": c, "field": k, "together": repr(a[k][lo:hi])[:300], "alone": repr(b[k][lo:hi])[:300]})
                break
    return v


def nontrivial(w):
    return w.extra.get("got", 0) >= 2


def probes(w):
    return {"clients": len(w.plan["clients"])}
