"""Capturing never disturbs the client."""
from ..gen import conn_fault, req_conn_fault, client_cfg
from ..world import World
from . import p22

RUNS = {"quick": 1500, "thorough": 20000}
EPS = 1e-6
RULE = ("a run counts when a capture delivered data; every run is executed again without its captures (and with sinks that do not raise); "
        "two runs are the same when their ordered event kinds coincide")


def gen(r, i, tier):
    plan = p22.gen(r, i, tier)
    plan["cfg"]["client"] = client_cfg(r)
    caps = plan["actors"][-1]
    for o in caps["ops"]:
        if o["op"] == "capture" and r.random() < 0.4:
            o["sink_raises"] = r.randrange(1, 4)
    for _ in range(r.choice((0, 1, 2))):  # competing captures
        ops = []
        for _ in range(r.randrange(1, 5)):
            op = {"op": "capture", "duration": round(r.uniform(0.01, 3), 4)}
            if r.random() < 0.3:
                op["cancel_after"] = round(r.random() * op["duration"], 4)
            if r.random() < 0.3:
                op["sink_raises"] = r.randrange(1, 4)
            ops += [op, {"op": "sleep", "t": round(r.uniform(0.01, 2), 3)}]
        plan["actors"].append({"start": round(r.uniform(0, 2), 4), "ops": ops})
    if r.random() < 0.35:  # one that keeps trying, while frames arrive piecemeal
        plan["cfg"].update(seg=r.choice(("random", "bytes")), seg_gap=r.choice((0.002, 0.01)))
        plan["actors"].append({"start": round(r.uniform(0, 1), 4), "ops": [x for _ in range(r.randrange(5, 40)) for x in
                               ({"op": "capture", "duration": 0.001}, {"op": "sleep", "t": round(r.choice((0.01, 0.3)) * r.random(), 4)})]})
    x = r.random()
    if x < 0.3:
        plan["actors"].append({"start": round(r.uniform(0.02, 1), 3), "ops": [{"op": "detect", "timeout": 0.5, "retries": 1, "probe_timeout": 0.1, "probe_retries": 0},
                                                                               {"op": "load_config", "timeout": 0.5, "retries": 1}, {"op": "refresh", "timeout": 0.5, "retries": 1}]})
    elif x < 0.5:
        plan["actors"].append({"start": round(r.uniform(0.02, 4), 3), "ops": [{"op": "probe", "timeout": 0.5, "retries": 1}, {"op": "close"}, {"op": "connect"}]})
    for _ in range(r.choice((0, 0, 1, 2))):
        plan["faults"].append(conn_fault(r, r.uniform(0.1, 8)) if r.random() < 0.5 else req_conn_fault(r, r.randrange(20)))
    for _ in range(r.choice((0, 0, 2))):
        plan["faults"].append({"act": "hb", "n": r.choice((1, 3, 30)), "type": r.randrange(1, 80), "at": round(r.uniform(0.1, 8), 3)})
    return plan


def build(plan):
    return World(plan)


def history(w):
    ops = [(o["id"], o["op"]["op"], o["t0"], o["t1"], o["out"], repr(o["val"]), o.get("connected_after")) for o in w.ops]
    return {"calls": [x for x in ops if x[1] != "capture"], "captures": [x[:3] + x[3:5] for x in ops if x[1] == "capture"],
            "tx": [(x.conn, x.t, x.raw) for x in w.tx], "rx": [(x.conn, x.td, x.raw) for x in w.rx],
            "conns": [(k, c["open"], tuple(c["closed"]), c["lost_at"], c["lost_kind"]) for k, c in sorted(w.conn_info.items())],
            "errors": [str(x) for x in w.loop_errors], "plant": repr(sorted(w.plant_state(0).items(), key=lambda x: x[0])) if w.clients else ""}


def first(a, b):
    n = next((i for i in range(max(len(a), len(b))) if a[i:i + 1] != b[i:i + 1]), -1)
    return {"index": n, "with": repr(a[n:n + 1])[:300], "without": repr(b[n:n + 1])[:300]}


def check(w):
    v = []
    caps = [o for o in w.ops if o["op"]["op"] == "capture"]
    refused = {o["id"] for o in caps if o["out"] == "RuntimeError"}
    w.extra["delivered"] = sum(len(o.get("sink", ())) for o in caps)
    for o in caps:
        others = [p for p in caps if p is not o and p["id"] not in refused]
        if o["out"] not in ("ok", "RuntimeError", "CancelledError") and o["t1"] is not None:
            v.append({"what": "capture-raised", "op": o["op"], "out": o["out"]})
        inside = [p for p in others if p["t0"] < o["t0"] - EPS and (p["t1"] is None or p["t1"] > o["t0"] + EPS)]
        near = [p for p in others if p["t0"] <= o["t0"] + EPS and (p["t1"] is None or p["t1"] >= o["t0"] - EPS)]
        if o["id"] not in refused and inside and o["op"].get("cancel_after", 1) > EPS:
            v.append({"what": "second-capture-not-refused", "op": o["op"], "t": o["t0"], "out": o["out"]})
        if o["id"] in refused and not near:
            v.append({"what": "capture-refused-while-none-runs", "op": o["op"], "t": o["t0"]})
        if o["id"] in refused and o.get("sink"):
            v.append({"what": "refused-capture-delivered", "op": o["op"]})
        if o["t1"] is not None and o["id"] not in refused:
            end = o["op"]["duration"] if "cancel_after" not in o["op"] else min(o["op"]["cancel_after"], o["op"]["duration"])
            if abs(o["t1"] - o["t0"] - end) > 1e-3:
                v.append({"what": "capture-duration", "op": o["op"], "took": o["t1"] - o["t0"]})
        if any(not o["s0"] < x[1] <= (o["s1"] or 1 << 60) for x in o.get("sink", ())):
            v.append({"what": "sink-called-outside-capture", "op": o["op"]})
    if not caps:
        return v
    alone = World(w.plan)
    alone.extra["no_capture"] = refused
    alone.run()
    a, b = history(w), history(alone)
    for k in a:
        if a[k] != b[k]:
            v.append({"what": "capture-disturbs", "field": k, **first(a[k], b[k])})
            break
    if refused:
        lone = World(w.plan)
        lone.extra["skip_capture"] = refused
        lone.run()
        for o, o2 in zip(caps, [o for o in lone.ops if o["op"]["op"] == "capture"]):
            sa, sb = [[(x[0], x[2], x[3]) for x in y.get("sink", ())] for y in (o, o2)]
            if o["id"] not in refused and sa != sb:
                v.append({"what": "refused-capture-disturbs-the-running-one", "op": o["op"], **first(sa, sb)})
                break
    if any("sink_raises" in o["op"] and o.get("sink") for o in caps):
        def mild(o):
            return {k: x for k, x in o.items() if k != "sink_raises"}
        calm = World({**w.plan, "actors": [{**x, "ops": [mild(o) for o in x["ops"]]} for x in w.plan["actors"]]})
        calm.run()
        sa = [[(x[0], x[2], x[3]) for x in o.get("sink", ())] for o in caps]
        sb = [[(x[0], x[2], x[3]) for x in o.get("sink", ())] for o in calm.ops if o["op"]["op"] == "capture"]
        if sa != sb:
            v.append({"what": "raising-sink-changes-deliveries", "calls": [[len(x) for x in sa], [len(x) for x in sb]]})
    return v


def nontrivial(w):
    return w.extra.get("delivered", 0) > 0


def probes(w):
    return {"sink_calls": w.extra.get("delivered", 0), "refused": sum(o["out"] == "RuntimeError" and o["op"]["op"] == "capture" for o in w.ops)}
