"""Shared machinery of the ingestion properties (P10-P15, P24, P25)."""
from ..feed import expand, keeper
from ..refplant import RefPlant, Shadow
from ..topo import Topology
from ..world import World


def build(plan, quiet=None):
    plan = dict(plan)
    plan["faults"] = sorted(plan.get("faults", []) + expand(plan), key=lambda f: f.get("at", 0))
    w = World(plan)
    kw = plan["cfg"]["client"]
    spec = plan["dongles"][0]
    caps = Topology(spec["topo"], spec["tseed"]).expected_caps() if plan.get("caps") else None
    if caps is not None:
        caps = {**caps, **plan.get("caps_over", {})}
    w.extra["shadow"] = [Shadow(w, i, RefPlant(caps, kw.get("splice_heal_seconds", 900), kw.get("splice_reject_heal_seconds")))
                         for i in range(len(plan.get("clients", [{}])))]

    def setup(w):
        if caps is not None:
            for c in w.clients:
                c.plant.capabilities = w.mk_caps(caps)
    w.extra["setup"] = setup
    forget = []

    async def invalidate(w, cl, op, rec):
        forget.append((cl, tuple(op["key"])))

    def hook(w):  # at an instant when nothing received is still being taken in
        for cl, k in forget:
            invalidated(w, cl, k)
        forget.clear()
    w.extra["calls"] = {"keep": keeper, "invalidate": invalidate}
    w.quiet_hooks.append(hook)
    return w


def invalidated(w, cl, k):
    """The consumer drops what is known of a block; the reference plant does the same."""
    sh = w.extra["shadow"][cl]
    w.clients[cl].plant.invalidate_presence(*k)
    ref = sh.ref
    ref.stamps.pop(k, None)
    ref.since.pop(k, None)
    ref.present.pop(k, None)
    for n in range(k[2], k[2] + k[3]):
        ref.regs.get(k[0], {}).pop((k[1], n), None)
    if k[1:] == ("IR", 60, 60) and k[0] in ref.packs:
        ref.packs[k[0]].pending = None
    sh.dirty = True
    sh.decisions["invalidated"] = sh.decisions.get("invalidated", 0) + 1
    if sh.diff is None and (d := sh.compare(ref)):
        sh.diff = {"what": "state-differs-after-invalidation", "t": round(w.now, 6), "client": cl, "key": list(k), **d, "decisions": ["invalidated"]}


def forgetting(r, keys, end):
    """Actors that now and then invalidate a block."""
    ops, t = [], 0.0
    for q in sorted(r.uniform(0, end) for _ in range(r.choice((1, 2, 5)))):
        ops += [{"op": "sleep", "t": round(q - t, 4)}, {"op": "call", "name": "invalidate", "key": list(r.choice(keys))}]
        t = q
    return [{"ops": ops}]


def differences(w, mine):
    """Violations whose first diverging decision is in `mine` (a predicate on the diff)."""
    out = []
    for s in w.extra["shadow"]:
        if s.diff is not None and mine(s.diff):
            out.append(s.diff)
    return out


def decisions(w):
    out = {}
    for s in w.extra["shadow"]:
        for k, n in s.decisions.items():
            out[k] = out.get(k, 0) + n
    return out
