"""Shared plan generators."""
from .topo import TOPO_POOL

# registers nobody's decoding depends on, all in the single-phase write-safe set
WRITE_REGS = [20, 27, 29, 31, 32, 44, 45, 50, 56, 57, 59, 94, 95, 96, 110, 111, 112, 114, 116]

LV_TOPOS = [t for t in TOPO_POOL if t["model"] in ("HYBRID_GEN1", "HYBRID_GEN2", "HYBRID_GEN3", "AC", "GATEWAY")]


def client_cfg(r):
    return {"tx_message_wait": r.choice((0.0, 0.02, 0.1, 0.25, 0.25)), "tx_jitter": r.choice((0.0, 0.0, 0.05, 0.1)),
            "connect_timeout": r.choice((0.5, 2.0))}


def net_cfg(r, seg=True):
    lo = r.choice((0.0005, 0.002, 0.02))
    return {"lat": [lo, lo * r.choice((1.01, 3, 10))], "seg": r.choice(("whole", "whole", "random", "bytes")) if seg else "whole",
            "coalesce": r.random() < 0.5}


def keys_for(topo, r=None):
    """Readable (addr, func, base, count) ranges of a topology, including near-identical ones."""
    ks = [(0x11, 3, 0, 60), (0x11, 4, 0, 60), (0x11, 3, 60, 60), (0x11, 4, 60, 60), (0x11, 4, 0, 30), (0x11, 3, 0, 30),
          (0x11, 3, 120, 60), (0x11, 4, 120, 60), (0x11, 4, 180, 60), (0x11, 4, 60, 30), (0x11, 3, 60, 30), (0x11, 3, 61, 60)]
    if topo["model"] in ("EMS", "EMS_COMMERCIAL"):
        ks = [k for k in ks if k[1] == 3] + [(0x11, 4, 2040, 55)]
    ks += [(b, 4, 60, 60) for b in topo.get("batteries", [])]
    ks += [(m, 4, 60, 30) for m in topo.get("meters", [])]
    for i, n in enumerate(topo.get("bcus", [])):
        ks.append((0x70 + i, 4, 60, 60))
    return ks


def anywhere(r):
    """Any device that is no battery pack, any window."""
    a = r.choice((0x11, 0x11, 0x31, 0x10, 1, 8, 0x21, 0x45, 0, 0xFF, 0x12, 0x50, 0x70, 0xA0))
    n = r.choice((60, 60, 60, 1, 30, 59, r.randrange(1, 61)))
    b = r.choice((60 * r.randrange(1092), 240, 300, 2040, r.randrange(65536 - n), 0, 65536 - n))
    if 0x70 <= a <= 0x7F and b <= 64 < b + n:  # a random module count there makes every view enormous
        b = 65
    return a, r.choice((3, 4, 4, 4, 22)), b, n


def read_op(k, timeout=1.0, retries=0, **kw):
    return {"op": "read", "addr": k[0], "func": k[1], "base": k[2], "count": k[3], "timeout": timeout, "retries": retries, **kw}


def write_op(reg, val, timeout=1.0, retries=0, **kw):
    return {"op": "write", "reg": reg, "val": val, "timeout": timeout, "retries": retries, **kw}


def req_faults(r, n, kinds, p, late=(0.3, 3.0)):
    """Faults on a random subset of the first n requests."""
    out = []
    for i in range(n):
        if r.random() < p:
            k = r.choice(kinds)
            f = {"req": i, "act": k}
            if k == "late":
                f["s"] = round(r.uniform(*late), 3)
            elif k == "trunc":
                f["frac"] = round(r.uniform(0.05, 0.95), 2)
            elif k in ("hb", "dup"):
                f["n"] = r.randrange(1, 4)
            elif k == "garbage":
                f["n"] = r.randrange(1, 400)
            out.append(f)
    return out


def uniq_keys(r):
    """Endless supply of distinct readable ranges at the inverter."""
    used = set()
    while True:
        k = (0x11, r.choice((3, 4)), r.randrange(0, 120), r.randrange(1, 60))
        if k not in used:
            used.add(k)
            yield k


ERRNOS = (110, 113, 104, 32, 103)  # ETIMEDOUT, EHOSTUNREACH, ECONNRESET, EPIPE, ECONNABORTED


def conn_fault(r, t, kinds=("eof", "rst", "etimedout", "stall")):
    k = r.choice(kinds)
    f = {"at": round(t, 4), "act": k}
    if k == "etimedout":
        f["errno"] = r.choice(ERRNOS)
    if k == "partial_eof":
        f["act"] = "raw"
    return f


def req_conn_fault(r, n, kinds=("eof", "rst", "etimedout", "partial_eof", "stall")):
    k = r.choice(kinds)
    f = {"req": n, "act": k, "delay": round(r.choice((0, 0, 0.01, 0.3)) * r.random(), 4)}
    if k == "etimedout":
        f["errno"] = r.choice(ERRNOS)
    if k == "partial_eof":
        f["frac"] = round(r.uniform(0.02, 0.98), 3)
    if r.random() < 0.3:
        f["when"] = "before"
    return f


def frame_sent_bound(cfg):
    c = cfg.get("client", {})
    return max(5.0, 20 * (c.get("tx_message_wait", 0.25) + c.get("tx_jitter", 0.1)) * 1.5)


CLOSE_BOUND = 15.0


def bound(op, cfg):
    """Documented upper bound of one public call, from its own arguments."""
    k = op["op"]
    fs = frame_sent_bound(cfg)

    def req(timeout, retries, delay=0.5):
        return (retries + 1) * (5 + fs + timeout + delay) + 1.0
    if k in ("read", "write"):
        return req(op.get("timeout", 1.0), op.get("retries", 0), op.get("retry_delay", 0.5))
    if k in ("cmd", "inst"):
        return req(op.get("timeout", 1.5), op.get("retries", 0), op.get("retry_delay", 0.5))
    if k in ("refresh", "load_config"):
        return req(op.get("timeout", 2.0), op.get("retries", 3), op.get("retry_delay", 0.5))
    if k == "connect":
        return CLOSE_BOUND + cfg.get("client", {}).get("connect_timeout", 2.0) + 1
    if k == "close":
        return CLOSE_BOUND
    if k == "probe":
        return req(op.get("timeout", 2.0), op.get("retries", 0)) + CLOSE_BOUND
    if k == "detect":
        return 14 * req(op.get("timeout", 2.0), op.get("retries", 3)) + \
            90 * req(op.get("probe_timeout", 0.5), op.get("probe_retries", 1), 0) + CLOSE_BOUND
    if k == "capture":
        return op["duration"] + 0.1
    return 1e9


def halting(r, cfg, faults, p=0.1, span=4.0, longest=3):
    """With probability p: a peer that reads haltingly into small buffers, so that writing waits."""
    if r.random() < p:
        cfg.update(kernel_cap=r.choice((10, 30, 100)), hiwater=r.choice((0, 0, 40)))
        for _ in range(r.randrange(2, 10)):
            faults.append({"at": round(r.random() * span + 0.02, 3), "act": "stall_rx", "for": round(r.choice((0.05, 0.4, longest)) * r.random() + 0.01, 3)})
