"""Minimise a failing plan: drop faults, actors and operations while the same violation class persists."""
import copy
import time


def _lists(plan):
    """Paths of the removable lists in a plan."""
    yield ("faults",)
    yield ("actors",)
    for i, a in enumerate(plan.get("actors", [])):
        yield ("actors", i, "ops")
        for j, o in enumerate(a["ops"]):
            if "do" in o:
                yield ("actors", i, "ops", j, "do")
            if "reqs" in o:
                yield ("actors", i, "ops", j, "reqs")
    if "feed" in plan:
        yield ("feed",)


def _get(plan, path):
    x = plan
    for p in path:
        x = x[p]
    return x


def _valid(plan):
    return bool(plan.get("actors"))


SIMPLE_CFG = [("seg", "whole"), ("coalesce", False), ("lat", [0.002, 0.01])]


def minimise(plan, fails, budget_s=45, max_runs=400, extra_simplify=None):
    """`fails(plan) -> bool`. Returns (plan, runs)."""
    t0 = time.perf_counter()
    import dst.env as env
    t0 = env.real_perf()
    best = copy.deepcopy(plan)
    runs = 0

    def left():
        return runs < max_runs and env.real_perf() - t0 < budget_s

    def attempt(c):
        nonlocal runs, best
        if not left() or not _valid(c):
            return False
        runs += 1
        if fails(c):
            best = c
            return True
        return False

    progress = True
    while progress and left():
        progress = False
        for path in list(_lists(best)):
            try:
                lst = _get(best, path)
            except (KeyError, IndexError, TypeError):
                continue
            n = max(1, len(lst) // 2)
            while n >= 1 and left():
                i = 0
                while left():
                    try:
                        lst = _get(best, path)
                    except (KeyError, IndexError, TypeError):
                        break
                    if i >= len(lst):
                        break
                    c = copy.deepcopy(best)
                    del _get(c, path)[i:i + n]
                    if attempt(c):
                        progress = True
                    else:
                        i += n
                n //= 2
        for k, v in SIMPLE_CFG:
            if best.get("cfg", {}).get(k, v) != v:
                c = copy.deepcopy(best)
                c["cfg"][k] = v
                progress |= attempt(c)
        if extra_simplify is not None:
            for c in extra_simplify(copy.deepcopy(best)):
                if not left():
                    break
                if attempt(c):
                    progress = True
    return best, runs
