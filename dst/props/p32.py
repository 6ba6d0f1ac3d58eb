"""A redacted export names no device, and is a snapshot."""
import copy
import json
import warnings

from ..refcap import G, MR_BASE, MR_COUNT, known_serial, lenient
from ..topo import Topology
from ..world import World, caps_dict
from . import p30
from .p30 import Reader, _caches

RUNS = {"quick": 500, "thorough": 7000}
RULE = ("at every export no serial number of the plant's devices was left in the copy's registers, dumps, headers or views, all else was as in the original, "
        "the original was untouched, and no later traffic changed the copy")
REAL = "client, plant, register caches, redaction, both dump formats, all views, asyncio"
STUB = "sockets, clocks, the dongles and their plants"
ASSUME = "device serials have one of the two shapes GivEnergy uses; a serial of which only a part was received is not recognisable (documented)"


def gen(r, i, tier):
    p = p30.gen(r, i, tier)
    for a in p["actors"]:
        for op in a["ops"]:
            if op.get("name") == "look":
                op["name"] = "export"
    for k, it in enumerate(list(p["feed"])):
        if r.random() < 0.5:
            it["ser"] = "own"
        if r.random() < 0.15:  # meter product identifiers
            p["feed"].append({"t": it["t"], "a": r.randrange(1, 9), "f": 22, "b": r.choice((60, 60, 61, 0)), "n": r.choice((60, 2, 1)), "v": r.choice(("rand", "small", "edge")),
                              "ser": "raw", "id": 5000 + k})
        if r.random() < 0.15:  # a stack or module speaking at every place a module serial can be
            p["feed"].append({"t": it["t"], "a": r.choice((0x70, 0x71, 0x50, 0x52)), "f": 4, "b": r.choice((60, 120, 114, 138)), "n": 60, "v": "small", "ser": "own", "id": 6000 + k})
        if r.random() < 0.4:  # a serial at any place of the register map that can hold one
            typ, g, n = r.choice(G)
            b = r.choice((g // 60 * 60, g, max(0, g - r.randrange(50)), max(0, g - 60 + r.randrange(1, 10))))
            p["feed"].append({"t": it["t"], "a": r.choice((0x11, 0x31, 0x32, 0x35, 0x70, 0x71, 0x73, 0x50, 0x52, 0xA0, 0x21)), "f": 3 if typ == "HR" else 4, "b": b,
                              "n": min(60, g - b + r.choice((5, 5, 20, 60))), "v": r.choice(("small", "rand", "edge")), "ser": "own", "sat": [g], "id": 7000 + k})
    return p


def truth(caches):
    """What the redacted registers must be."""
    out = {}
    for a, c in caches.items():
        d = dict(c)
        for typ, b, n in G:
            ks = [(typ, b + k) for k in range(n)]
            vals = [c.get(k) for k in ks]
            if None in vals:
                continue
            new = lenient(vals)
            if new != vals:
                d.update(zip(ks, new))
        for k in range(MR_BASE, MR_BASE + MR_COUNT):
            if c.get(("MR", k)) is not None:
                d[("MR", k)] = 0
        out[a] = d
    return out


def header(s):
    return s[:7] + "000" if known_serial(s) else ""


def public(p):
    return {"caches": _caches(p), "stamps": dict(p.register_block_updated_at), "present": dict(p.register_block_present), "caps": copy.deepcopy(caps_dict(p.capabilities)),
            "headers": (p.inverter_serial_number, p.data_adapter_serial_number),
            "counters": {k: dict(getattr(p, k)) for k in ("crc_failure_count", "splice_reject_count", "splice_held_count", "retry_count", "cold_start_held_count")},
            "unchanged": {k: p._block_unchanged_since.get(k) for k in p.register_block_updated_at} if hasattr(p, "_block_unchanged_since") else None,
            "inverters": [repr(x) for x in p.inverters]}


def secrets(w):
    out = set()
    for spec in w.plan["dongles"]:
        t = Topology(spec["topo"], spec["tseed"])
        t._ser(0x11)
        out |= set(t.serials.values()) | {t.adapter}
    for dg in w.dongles:
        out |= set(dg.topo.serials.values()) | {dg.topo.adapter}
    return {s for s in out if not s.endswith("000")}


def compact_words(text):
    return [bytes.fromhex(ln.split(" ", 1)[1]).decode("latin1").replace("\0", "").upper() for ln in text.splitlines() if ln]


async def export(w, cl, op, rec):
    from givenergy_modbus.model.register_cache import RegisterCache, parse_compact, to_compact
    p = w.clients[cl].plant
    x = w.extra
    verify(w)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        before = public(p)
        q = p.redact()
        if public(p) != before:
            w.violate("exporting changed the live plant", t=w.now)
        got, want = _caches(q), truth(before["caches"])
        if got != want:
            a = next(a for a in set(got) | set(want) if got.get(a) != want.get(a))
            ks = [k for k in set(got.get(a, {})) | set(want.get(a, {})) if got.get(a, {}).get(k) != want.get(a, {}).get(k)]
            w.violate("a register of the export differs", device=hex(a), registers=sorted(ks)[:5], got=[got.get(a, {}).get(k) for k in sorted(ks)[:5]],
                      want=[want.get(a, {}).get(k) for k in sorted(ks)[:5]], t=w.now)
        for c in p.register_caches:
            one = {(type(k).__name__, k.index): v for k, v in dict.items(p.register_caches[c].redact_serials())}
            if one != want[c]:
                w.violate("a redacted cache differs from the plant's", device=hex(c), t=w.now)
        if (q.inverter_serial_number, q.data_adapter_serial_number) != tuple(header(s) for s in before["headers"]):
            w.violate("a header of the export differs", got=(q.inverter_serial_number, q.data_adapter_serial_number), of=before["headers"], t=w.now)
        for k in ("stamps", "present", "caps", "counters"):
            if public(q)[k] != before[k]:
                w.violate("the export lost or changed its " + k, t=w.now)
        rd = Reader()
        views = json.dumps(rd.render(q, "plant"), default=str)
        text = to_compact(q.register_caches)
        dumps = {"a view": views, "the compact dump": " ".join(compact_words(text)), "a register dump": text, "repr": repr(q)}
        if {a: {k: v for k, v in c.items() if v is not None} for a, c in got.items() if c} != \
                {a: {(type(k).__name__, k.index): v for k, v in dict.items(c)} for a, c in parse_compact(text).items() if c}:
            w.violate("the compact dump of the export is not its registers", t=w.now)
        for a, c in q.register_caches.items():
            back = {(type(k).__name__, k.index): v for k, v in dict.items(RegisterCache.from_json(c.json()))}
            if back != got[a]:
                w.violate("the JSON dump of the export is not its registers", device=hex(a), t=w.now)
        found = 0
        for s in sorted(secrets(w)):
            for where, hay in dumps.items():
                if s in hay:
                    w.violate("a serial number is left in the export", where=where, at=path_of(rd, q, s) if where == "a view" else None, t=w.now)
                    break
            found += any(s == v for v in before["headers"])
        x["exports"] = x.get("exports", 0) + 1
        x["serials"] = x.get("serials", 0) + found + sum(want[a] != before["caches"][a] for a in want)
        x["kept"] = (q, public(q))


def path_of(rd, q, s):
    def walk(o, path):
        if isinstance(o, dict):
            for k, v in o.items():
                r = (path + "." + str(k)) if s in str(k) else walk(v, path + "." + str(k))
                if r:
                    return r
        elif isinstance(o, list):
            for k, v in enumerate(o):
                r = walk(v, f"{path}[{k}]")
                if r:
                    return r
        elif s in str(o):
            return path
    return walk(Reader().render(q, "plant"), "plant")


def verify(w):
    """An earlier export is what it was."""
    if "kept" in w.extra:
        q, was = w.extra["kept"]
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            now = public(q)
        for k in was:
            if now[k] != was[k]:
                w.violate("later traffic changed an export", part=k, t=w.now)


def build(plan):
    w = p30.build(plan)
    w.extra["calls"]["export"] = export

    async def final(w):
        verify(w)
    w.extra["final"] = final
    return w


def check(w):
    v = list(w.violations)
    for r in w.ops:
        if r["op"]["op"] == "call" and r["op"]["name"] == "export" and r["out"] not in ("ok", None):
            v.append({"what": "exporting failed", "exc": repr(r.get("exc"))})
    return v


def nontrivial(w):
    return w.extra.get("serials", 0) > 0


def probes(w):
    return {"exports": w.extra.get("exports", 0), "redacted_serial_groups": w.extra.get("serials", 0)}
