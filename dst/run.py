"""Check runner:  python3 -m dst.run P01 [--tier quick|thorough] [--seed N] [--runs N] [--replay FILE]"""
import argparse
import collections
import gc
import importlib
import json
import multiprocessing
import os
import pickle
import subprocess
import sys
import traceback

from . import env
from .rng import h64, keyed

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPLAYS = os.path.join(VERIF, "replays")
EVID = os.path.join(VERIF, "evidence")
KNOWN = os.path.join(VERIF, "known-findings.json")


def load_prop(pid):
    return importlib.import_module(f"dst.props.{pid.lower()}")


def make_plan(mod, pid, base_seed, i, tier):
    s = h64("run", pid, base_seed, i)
    plan = mod.gen(keyed(s, "gen"), i, tier)
    plan["prop"] = pid
    plan.setdefault("seed", s & 0x7FFFFFFFFFFFFFFF)
    return json.loads(json.dumps(plan))


def execute(mod, plan):
    """Run one plan; returns (world, violations)."""
    w = mod.build(plan)
    w.run()
    if w.harness_error:
        raise RuntimeError("simulator failed:\n" + w.harness_error)
    v = list(w.violations)
    if w.hang:
        v.append({"what": "hang", "detail": w.hang})
    else:
        v += mod.check(w)
    return w, v


def in_fork(fn):
    """fn() in a forked child: whatever it does to the process's memory (module and class state included) stays there."""
    rfd, wfd = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if not pid:
        code = 1
        try:
            os.close(rfd)
            try:
                data = pickle.dumps((True, fn()))
            except env.WallTimeout:
                data = pickle.dumps((False, "wall-timeout"))
            except BaseException:  # noqa: BLE001
                data = pickle.dumps((False, traceback.format_exc()))
            with os.fdopen(wfd, "wb") as f:
                f.write(data)
            code = 0
        finally:
            os._exit(code)
    os.close(wfd)
    with os.fdopen(rfd, "rb") as f:
        data = f.read()
    _, st = os.waitpid(pid, 0)
    if not data:
        raise RuntimeError(f"simulation child ended without a result (status {st})")
    ok, val = pickle.loads(data)
    if ok:
        return val
    if val == "wall-timeout":
        raise env.WallTimeout()
    raise RuntimeError(val)


def one(args):
    """One run, in a process of its own so that no run sees what an earlier one left in module or class state."""
    try:
        return in_fork(lambda: one_here(args))
    except BaseException:  # noqa: BLE001
        return {"i": args[2], "err": traceback.format_exc(), "viol": None}


def one_here(args):
    pid, base_seed, i, tier = args
    mod = load_prop(pid)
    out = {"i": i, "err": None, "viol": None}
    try:
        plan = make_plan(mod, pid, base_seed, i, tier)
        w, v = execute(mod, plan)
        out["viol"] = v[:3]
        out["simtime"] = w.end_time
        out["hash"] = w.trace_hash()
        out["state"] = w.state_hash()
        out["nontrivial"] = bool(mod.nontrivial(w)) if hasattr(mod, "nontrivial") else True
        out["fired"] = dict(w.fired)
        out["probes"] = dict(mod.probes(w)) if hasattr(mod, "probes") else {}
        out["iters"] = w.loop.iterations
        out["frames"] = (len(w.tx), len(w.rx))
        out["sample"] = mod.sample(w) if hasattr(mod, "sample") else f"run {i}: {len(w.ops)} operations, {len(w.tx)} frames sent, " \
            f"{len(w.rx)} received, faults {dict(w.fired)}"
        del w
    except env.WallTimeout:
        out["viol"] = [{"what": "hang", "detail": "real-time cap exceeded outside the simulated loop"}]
    except BaseException:  # noqa: BLE001
        out["err"] = traceback.format_exc()
    return out


def known_match(known, pid, v):
    for k in known:
        if k.get("status") != "open" or k["property"] != pid:
            continue
        m = k["match"]
        if all(str(v.get(f)) == str(x) for f, x in m.items()):
            return k
    return None


def load_known():
    if os.path.exists(KNOWN):
        with open(KNOWN) as f:
            return json.load(f)["findings"]
    return []


def report_violation(mod, pid, plan, v, known, budget=60):
    what = v["what"]

    def fails(p):
        try:
            vs = in_fork(lambda: json.loads(json.dumps(execute(mod, p)[1], default=str)))
        except env.WallTimeout:
            return what == "hang"
        except Exception:  # noqa: BLE001
            return False
        return any(x["what"] == what and not known_match(known, pid, x) for x in vs)
    from .shrink import minimise
    if what == "hang":
        plan.setdefault("cfg", {})["wall_cap"] = 20
    small, runs = minimise(plan, fails, budget_s=budget, extra_simplify=getattr(mod, "simplify", None))
    w, vs = execute(mod, small)
    vs = [x for x in vs if x["what"] == what] or vs
    os.makedirs(REPLAYS, exist_ok=True)
    path = os.path.join(REPLAYS, f"{pid}-{plan['seed']}.json")
    ops = [{"op": r["op"], "t0": r["t0"], "t1": r["t1"], "out": r["out"]} for r in w.ops]
    with open(path, "w") as f:
        json.dump({"property": pid, "violation": vs[:3], "plan": small, "trace_hash": w.trace_hash(), "shrink_runs": runs,
                   "operations": ops, "log": [x[:3] for x in w.logs if x[1] >= 30][:40]}, f, indent=1, default=str)
    r = subprocess.run([sys.executable, "-m", "dst.run", pid, "--replay", path], cwd=VERIF, capture_output=True, text=True,
                       timeout=180)
    ok = "REPRODUCED" in r.stdout
    print(f"violation: {json.dumps(vs[:1], default=str)[:1500]}")
    print(f"minimised in {runs} runs; replay in a fresh process: {'reproduced exactly' if ok else 'NOT reproduced: ' + r.stdout[-300:] + r.stderr[-300:]}")
    print(f"VIOLATION property={pid} replay={path}")
    sys.stdout.flush()


def replay(pid, path):
    with open(path) as f:
        d = json.load(f)
    env.load()
    mod = load_prop(pid)
    w, v = execute(mod, d["plan"])
    same = w.trace_hash() == d["trace_hash"]
    whats = {x["what"] for x in d["violation"]}
    hit = [x for x in v if x["what"] in whats]
    for x in (hit or v)[:3]:
        print(json.dumps(x, default=str)[:3000])
    print(f"trace_hash {w.trace_hash()} ({'identical' if same else 'differs'})")
    if "-v" in sys.argv:
        for e in w.events:
            print(e)
    if hit:
        if same or "hang" in whats:
            print("REPRODUCED")
        print(f"VIOLATION property={pid} replay={path}")
        return 1
    return 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--runs", type=int)
    ap.add_argument("--start", type=int, default=0)
    ap.add_argument("--workers", type=int, default=min(8, os.cpu_count() or 1))
    ap.add_argument("--replay")
    ap.add_argument("--hashes")
    ap.add_argument("--cap", type=float)
    ap.add_argument("--no-evidence", action="store_true")
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    pid = a.prop
    if a.replay:
        sys.exit(replay(pid, a.replay))
    t0 = env.real_perf()
    print(f"VERIF_SEED={a.seed} tier={a.tier} property={pid}")
    sys.stdout.flush()
    env.load()
    gc.collect()
    gc.freeze()
    mod = load_prop(pid)
    n = a.runs or mod.RUNS[a.tier]
    cap = a.cap or (420 if a.tier == "quick" else 780)
    known = load_known()
    jobs = [(pid, a.seed, i, a.tier) for i in range(a.start, a.start + n)]
    res = []
    bad = None
    kf = collections.OrderedDict()
    errs = []
    capped = False
    ctx = multiprocessing.get_context("fork")
    with ctx.Pool(a.workers, maxtasksperchild=400) as pool:
        it = pool.imap(one, jobs, chunksize=max(1, min(16, n // (a.workers * 4) or 1)))
        for r in it:
            if r["err"]:
                errs.append((r["i"], r["err"]))
                if len(errs) > 3:
                    break
                continue
            res.append(r)
            new = []
            for v in r["viol"] or ():
                k = known_match(known, pid, v)
                if k:
                    kf[k["id"]] = k
                else:
                    new.append(v)
            if new:
                bad = (r["i"], new)
                break
            if env.real_perf() - t0 > cap:
                capped = True
                break
        pool.terminate()
    if a.hashes:
        with open(a.hashes, "w") as f:
            for r in res:
                f.write(f"{r['i']} {r['hash']}\n")
    wall = env.real_perf() - t0
    if not a.no_evidence:
        write_evidence(mod, pid, a, res, wall, capped, bad, kf)
    for k in kf.values():
        print(f"KNOWN-FINDING: property={pid} {k['what_fails']}")
    if bad:
        i, v = bad
        print(f"run index {i} violates {pid}")
        report_violation(mod, pid, make_plan(mod, pid, a.seed, i, a.tier), v[0], known)
        sys.exit(1)
    if errs:
        for i, e in errs[:3]:
            print(f"HARNESS ERROR in run {i}:\n{e}")
        sys.exit(2)
    states = {r["state"] for r in res if r["nontrivial"]}
    fired = collections.Counter()
    probes = collections.Counter()
    for r in res:
        fired.update(r["fired"])
        probes.update(r["probes"])
    print(f"{pid}: {len(res)} runs, {len(states)} distinct non-trivial interleavings, "
          f"{sum(r['simtime'] for r in res) / 3600:.1f} simulated hours, {wall:.1f}s wall")
    print(f"faults fired: {dict(fired.most_common())}")
    print(f"probes: {dict(probes.most_common())}")
    sys.exit(0)


def write_evidence(mod, pid, a, res, wall, capped, bad, kf):
    os.makedirs(EVID, exist_ok=True)
    fired, probes = collections.Counter(), collections.Counter()
    for r in res:
        fired.update(r["fired"])
        probes.update(r["probes"])
    states = {r["state"] for r in res if r["nontrivial"]}
    sim = sum(r["simtime"] for r in res)
    ev = {
        "property": pid, "tier": a.tier, "seed": a.seed, "level": "exploration",
        "coverage": {
            "evaluations": len(res),
            "distinct_nontrivial": len(states),
            "rule": getattr(mod, "RULE", "a run counts when at least one fault fired or two operations overlapped; "
                            "two runs are the same when their ordered event kinds (operations, frames by content, faults) coincide"),
            "samples": [r["sample"] for r in res[:: max(1, len(res) // 8)]][:8],
            "runs_per_hour": round(len(res) / wall * 3600) if wall else 0,
            "simulated_seconds": round(sim, 1),
            "faults_injected": dict(fired.most_common()),
            "reach_probes": dict(probes.most_common()),
            "loop_iterations": sum(r["iters"] for r in res),
            "frames_sent_by_client": sum(r["frames"][0] for r in res),
            "frames_sent_to_client": sum(r["frames"][1] for r in res),
            "stopped_at_wall_cap": capped,
            "seed_derivation": "run i uses h64('run', property, VERIF_SEED, i)",
            "real_components": getattr(mod, "REAL", "client, framer, codec, PDU, plant, battery guard, register models (all of the package), "
                                       "asyncio streams, tasks, queues and timeouts"),
            "stubbed_components": getattr(mod, "STUB", "event-loop selector and clock, TCP sockets and kernel buffers, "
                                          "wall clock, random seed, the dongle/inverter (simulated peer)"),
        },
        "wall_s": round(wall, 2),
        "assumptions": getattr(mod, "ASSUME", []),
        "violations": len(bad[1]) if bad else 0,
    }
    with open(os.path.join(EVID, f"{pid}.json"), "w") as f:
        json.dump(ev, f, indent=1)


if __name__ == "__main__":
    main()
