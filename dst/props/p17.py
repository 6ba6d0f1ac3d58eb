"""Poll outcomes are honest."""
from ..gen import halting, conn_fault, req_faults
from ..hist import History
from ..topo import TOPO_POOL, Topology, config_banks, refresh_banks
from ..world import SUSPICIOUS, World

RUNS = {"quick": 1500, "thorough": 20000}
NAMES = {3: "ReadHoldingRegistersRequest", 4: "ReadInputRegistersRequest"}


def gen(r, i, tier):
    topo = r.choice(TOPO_POOL)
    spec = {"topo": topo, "tseed": r.randrange(1 << 30), "lat": [0.005, r.choice((0.02, 0.2))], "absent_bank": r.choice(("error", "silent"))}
    caps = Topology(topo, spec["tseed"]).expected_caps()
    devs = sorted({b[0] for b in refresh_banks(caps)} - {0x11})
    cfg = {"client": {"tx_message_wait": r.choice((0.0, 0.02, 0.25)), "tx_jitter": r.choice((0.0, 0.05))}, "seg": r.choice(("whole", "random")),
           "coalesce": r.random() < 0.5, "lat": [0.001, r.choice((0.003, 0.05))]}
    ops = [{"op": "connect"}]
    timeout = r.choice((0.3, 1.0))
    na = r.choice((1, 1, 2))
    horizon = 60
    for _ in range(r.randrange(1, 5)):
        op = {"op": "call", "name": "poll", "kind": r.choice(("refresh", "refresh", "config", "plant", "plant0")), "timeout": timeout,
              "retries": r.randrange(3), "retry_delay": r.choice((0, 0.1, 0.5))}
        if r.random() < 0.15:
            op["cancel_after"] = round(r.choice((0.01, 0.2, 1.0, 3.0)) * r.random(), 4)
        ops += [op, {"op": "sleep", "t": round(r.random(), 3)}]
        if r.random() < 0.2:
            ops.append({"op": "connect"})
    actors = [{"ops": ops}]
    if na == 2:  # an unrelated caller
        actors.append({"start": 0.1, "ops": [x for k in range(r.randrange(1, 6)) for x in
                                             ({"op": "read", "addr": 0x11, "func": 3, "base": 20 + k, "count": 3, "timeout": timeout, "retries": 1},
                                              {"op": "sleep", "t": round(r.random(), 3)})]})
    mode = r.random()
    faults = []
    n = 12 * len(ops)
    if mode < 0.5:
        faults = req_faults(r, n, ["drop", "drop", "late", "dup", "err", "crc", "null", "unsol", "hb", "zero", "susp", "flip"],
                            r.choice((0.05, 0.2, 0.6)), late=(0.0, timeout * 2))
    elif mode < 0.62:  # everything fails for a while
        a, b = sorted(r.sample(range(n), 2))
        faults = [{"req": k, "act": r.choice(("drop", "err", "crc", "null"))} for k in range(a, b + 20)]
    elif mode < 0.75:  # whole devices never answer
        faults = [{"at": 0.02, "act": "gone", "addr": a} for a in r.sample([0x11, *devs], r.randrange(1, len(devs) + 2))]
    if r.random() < 0.25:
        faults.append(conn_fault(r, r.uniform(0.05, 6), ("eof", "rst", "etimedout")))
    halting(r, cfg, faults)
    return {"cfg": cfg, "caps": r.random() < 0.97, "dongles": [spec], "actors": actors, "faults": faults, "horizon": 60 * horizon}


def build(plan):
    w = World(plan)
    caps = Topology(plan["dongles"][0]["topo"], plan["dongles"][0]["tseed"]).expected_caps()
    w.extra["polls"] = []

    def setup(w):
        if plan["caps"]:
            w.clients[0].plant.capabilities = w.mk_caps(caps)
    w.extra["setup"] = setup

    async def poll(w, cl, op, rec):
        import warnings
        c = w.clients[cl]
        kw = {"timeout": op["timeout"], "retries": op["retries"], "retry_delay": op["retry_delay"]}
        p = {"rec": rec["id"], "kind": op["kind"], "s0": w.tick(), "t0": w.now, "out": "cancelled", "op": op}
        w.extra["polls"].append(p)
        try:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                if op["kind"] == "config":
                    r = await c.load_config(**kw)
                elif op["kind"].startswith("plant") and plan["caps"]:
                    r = await c.refresh_plant(op["kind"] == "plant", **kw)
                else:
                    r = await c.refresh(**kw)
            p["out"] = "ok" if r is c.plant else "other-plant"
        except Exception as e:  # noqa: BLE001
            p["out"] = type(e).__name__
            p["exc"] = e
            raise
        finally:
            p["s1"], p["t1"] = w.tick(), w.now
            p["cache"] = {a: set(dict.keys(x)) for a, x in c.plant.register_caches.items()}
    w.extra["calls"] = {"poll": poll}
    return w


def check(w):
    caps = Topology(w.plan["dongles"][0]["topo"], w.plan["dongles"][0]["tseed"]).expected_caps()
    h = History(w)
    v = []
    for p in w.extra["polls"]:
        rec = w.ops[p["rec"]]
        info = {"t": [p["t0"], p.get("t1")], "op": p["op"], "out": p["out"]}
        if rec["t1"] is None:
            v.append({"what": "poll-never-ended", **info})
            continue
        sent = [x for x in w.tx if p["s0"] < x.seq < p["s1"] and x.f is not None and x.f.kind != "heartbeat"]
        if not w.plan["caps"]:
            if p["out"] != "PlantNotDetected" and rec["out"] != "CancelledError":
                v.append({"what": "poll-without-detection", **info})
            if [x for x in sent if x.f.key()[2:] in ((0, 60), (180, 60))]:
                v.append({"what": "poll-without-detection-transmitted", **info})
            continue
        cancelled = rec.get("cancelled_by_plan") or rec["out"] in ("cancelled-by-plan",)
        if p["out"] == "cancelled":
            if not cancelled:
                v.append({"what": "cancelled-without-the-caller-asking", **info})
            continue
        if cancelled and p["out"] != "cancelled" and rec["cancel_t"] < p["t1"] - 1e-9:
            v.append({"what": "cancellation-became-a-result", **info})
            continue
        groups = {"refresh": [refresh_banks(caps)], "plant0": [refresh_banks(caps)], "config": [config_banks(caps)],
                  "plant": [config_banks(caps), refresh_banks(caps)]}[p["kind"]]
        if p["out"] == "ok":
            failed = set()
            wanted = [b for g in groups for b in g]
        elif p["out"] in ("RefreshPartiallySucceeded", "RefreshFailed"):
            e = p["exc"]
            fl = []
            for f in e.failures:
                code = {"ReadHoldingRegistersRequest": 3, "ReadInputRegistersRequest": 4}.get(f.request_type)
                fl.append((f.device_address, code, f.base_register, f.register_count))
            failed = set(fl)
            g = groups[0] if len(groups) == 1 or failed & set(groups[0]) else groups[1]
            if len(fl) != len(failed) or not failed or failed - set(g):
                v.append({"what": "failure-list-wrong", "failures": fl, **info})
                continue
            if len(e.cause.exceptions) != len(fl):
                v.append({"what": "failure-causes-wrong", "failures": fl, **info})
            if (p["out"] == "RefreshFailed") != (failed == set(g)):
                v.append({"what": "partial-and-total-confused", "failures": fl, "banks": g, **info})
                continue
            if p["out"] == "RefreshPartiallySucceeded" and e.plant is not w.clients[0].plant:
                v.append({"what": "wrong-plant", **info})
            wanted = g
        else:
            v.append({"what": "unexpected-outcome", **info})
            continue
        r = {"op": {"timeout": p["op"]["timeout"]}, "s0": p["s0"], "t0": p["t0"], "t1": p["t1"], "client": 0}
        for b in wanted:
            good = [f for f in h.good_frames(b) if p["t0"] - 1e-9 <= f.td <= p["t1"] + 1e-9]
            if b in failed:
                m = h.missed_answer(r, b)
                if m:
                    v.append({"what": "answered-bank-reported-failed", "bank": b, **m, **info})
                    break
            elif not good:
                v.append({"what": "unanswered-bank-reported-good", "bank": b, **info})
                break
            else:
                f = good[-1].f
                hits = sum(1 for k, x in SUSPICIOUS.items() if k < len(f.values) and f.values[k] == x)
                plain = not 0x32 <= b[0] <= 0x37 and hits < 3 and any(f.values)
                have = p["cache"].get(b[0], set())
                if plain and sum(1 for k in have if type(k).__name__ == ("HR" if b[1] == 3 else "IR") and b[2] <= k.index < b[2] + b[3]) != b[3]:
                    v.append({"what": "answered-bank-not-usable", "bank": b, **info})
                    break
    return v


def probes(w):
    out = {}
    for p in w.extra["polls"]:
        out[p["out"]] = out.get(p["out"], 0) + 1
    return out
