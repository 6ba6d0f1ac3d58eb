"""A saved plant is the plant again after a restart."""
import asyncio
import copy
import json
import warnings

from ..gen import conn_fault, req_conn_fault, req_faults, write_op, WRITE_REGS
from ..rng import keyed
from ..topo import Topology
from ..world import World, caps_dict, cur_client
from .p18 import POOL, compare, norm
from .p30 import Reader, _caches, _first

RUNS = {"quick": 700, "thorough": 12000}
RULE = ("what was saved restored equal in every documented form, damaged entries were left out without touching others, the restarted client polled as one that never "
        "stopped, showed the same plant, hinted detection confirmed it, and the offline rebuild agreed with the live plant")
REAL = "client, plant, capabilities and register-cache serialisers, topology derivation, views, asyncio"
STUB = "sockets, clocks, the dongle and its plant, the disk (the saved documents, with damage)"
ASSUME = "the application replaces its saved documents atomically; the plant does not change between the sessions unless the run says so"


LISTS = ("meter_addresses", "lv_battery_addresses", "aio_battery_module_addresses", "hv_bmu_addresses", "bcu_stacks")


# -- generation ------------------------------------------------------------------------
def gen(r, i, tier):
    topo = r.choice(POOL)
    pace = r.choice((0.0, 0.0, 0.05, 0.25))
    cfg = {"client": {"tx_message_wait": pace, "tx_jitter": r.choice((0.0, 0.1))}, "seg": r.choice(("whole", "random", "bytes")), "coalesce": r.random() < 0.5,
           "lat": [0.001, 0.01]}
    first = [{"op": "connect"}, {"op": "call", "name": "find", "timeout": 1.0, "retries": 2, "probe_timeout": 0.3, "probe_retries": r.randrange(2),
                                 "client": 0}, {"op": "call", "name": "save"}]
    for _ in range(r.choice((0, 2, 6))):
        first.append(r.choice(({"op": "call", "name": "poll", "what": "load_config"}, {"op": "call", "name": "poll", "what": "refresh"},
                               {"op": "call", "name": "poll", "what": "refresh"}, {"op": "sleep", "t": r.choice((0.1, 3, 60, 400))},
                               write_op(r.choice(WRITE_REGS), r.randrange(100), 1.0, 1), {"op": "call", "name": "save"}, {"op": "call", "name": "find", "timeout": 1.0,
                                "retries": 2, "probe_timeout": 0.3, "probe_retries": 0, "again": r.choice(("hint", "cold"))})))
    if r.random() < 0.7:
        first += [{"op": "call", "name": "poll", "what": r.choice(("load_config", "refresh"))}, {"op": "call", "name": "save"}]
    quiet = r.random() < 0.4
    faults = []
    if not quiet:
        faults += req_faults(r, 120, ("drop", "err", "crc", "late", "dup", "null", "flip", "zero", "unsol", "garbage", "hb", "trunc"), r.choice((0.02, 0.1, 0.3)))
        faults += [conn_fault(r, round(r.uniform(0.5, 60), 3)) for _ in range(r.choice((0, 0, 1)))]
        faults += [req_conn_fault(r, 120) for _ in range(r.choice((0, 0, 1)))]
    kill = r.choice((round(r.uniform(0.5, 40), 3), None, None))
    second = [{"op": "call", "name": "kill", "at": kill}, {"op": "heal"}, {"op": "sleep", "t": r.choice((0.5, 30, 1000, 1e5))},
              {"op": "call", "name": "restore", "form": r.choice(("now", "now", "v200", "v200", "ints", "nulls", "model", "wrongver")),
               "damage": r.choice((None, None, "entries", "torn", "reflow", "compactrow")), "k": r.randrange(1 << 30)},
              {"op": "call", "name": "session", "which": "restored", "client": 1, "n": r.choice((1, 1, 2)), "cfg": r.random() < 0.7},
              {"op": "call", "name": "session", "which": "kept", "client": 2},
              {"op": "call", "name": "confirm", "client": 3}]
    return {"cfg": cfg, "clients": [{"d": 0} for _ in range(4)],
            "dongles": [{"topo": topo, "tseed": r.randrange(1 << 30), "lat": [0.004, r.choice((0.01, 0.1))], "absent_bank": r.choice(("error", "silent")), "mark": False}],
            "actors": [{"ops": first}, {"ops": second}], "faults": faults, "horizon": 300000}


# -- saved documents ----------------------------------------------------------------------
def old_form(doc, form, truth):
    """The same capabilities as another documented document."""
    from givenergy_modbus.model.inverter import Model
    d = dict(doc)
    m = Model[truth["device_type"]]
    num = {k: truth[k] for k in ("inverter_address", "meter_addresses", "lv_battery_addresses", "aio_battery_module_addresses", "hv_bmu_addresses", "lv_bcu_address")}
    if form in ("v200", "model"):
        d.pop("schema_version")
        d.update(num)
        d["device_type"] = m.value if form == "v200" else m
        if form == "v200":
            for old, new in (("inverter_slave", "inverter_address"), ("meter_slaves", "meter_addresses"), ("lv_battery_slaves", "lv_battery_addresses"),
                             ("bcu_slaves", "bcu_stacks")):
                d[old] = d.pop(new)
        for k in ("aio_battery_module_addresses", "hv_bmu_addresses", "lv_bcu_address", "arm_firmware_version"):
            if not d[k]:
                del d[k]
    elif form == "ints":
        d.update(num)
        if m.value.isdigit():
            d["device_type"] = int(m.value)
            d.pop("schema_version")
    elif form == "nulls":
        for k, v in list(d.items()):
            if v in ([], None):
                d[k] = None
    return d


def summary(p):
    """Every view, without the bookkeeping of the running session."""
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        rd = Reader()
        out = rd.render(p, "plant")
    for k in list(out):
        if k.endswith("_count") or k in ("register_block_updated_at", "register_block_present", "last_updated_at", "splice_heal_seconds", "splice_reject_heal_seconds"):
            del out[k]
    return out


def build(plan):
    w = World(plan)
    x = w.extra
    x["sessions"] = {}

    async def find(w, cl, op, rec):
        c = w.clients[cl]
        if not c.connected:
            await c.connect()
        kw = {k: op[k] for k in ("timeout", "retries", "probe_timeout", "probe_retries")}
        if op.get("again") == "hint" and c.plant.capabilities is not None:
            kw["prior"] = c.plant.capabilities
        x["half"] = True
        await c.detect(**kw)
        x["half"] = False

    async def poll(w, cl, op, rec):
        c = w.clients[cl]
        if c.plant.capabilities is None:
            return
        if not c.connected:
            await c.connect()
        await getattr(c, op["what"])(timeout=1.0, retries=1)

    async def save(w, cl, op, rec):
        from givenergy_modbus.model.register_cache import to_compact
        p = w.clients[cl].plant
        if p.capabilities is None:
            return
        x["saved"] = {"caps": json.dumps(p.capabilities.to_dict()), "caches": {a: c.json() for a, c in p.register_caches.items()},
                      "compact": to_compact(p.register_caches), "inv": p.inverter_serial_number, "ada": p.data_adapter_serial_number}
        x["truth"] = {"caps": copy.deepcopy(caps_dict(p.capabilities)), "caches": _caches(p), "views": summary(p), "t": w.now, "half": x.get("half")}
        x["saves"] = x.get("saves", 0) + 1

    async def kill(w, cl, op, rec):
        if op["at"] is not None:
            await asyncio.sleep(op["at"])
        else:
            await asyncio.wait([w.tasks[0]])
        w.fired["killed"] += 1
        for t in sorted(asyncio.all_tasks(w.loop), key=lambda t: (len(t.get_name()), t.get_name())):
            if t.get_context().get(cur_client) == 0 and t is not asyncio.current_task() and not t.get_name().startswith("actor1"):
                t.cancel()
        for ci in w.conn_info.values():
            if ci["client"] == 0 and ci["conn"].t[0] is not None:
                ci["conn"].t[0].abort()

    async def restore(w, cl, op, rec):
        if "saved" not in x:
            return
        from givenergy_modbus.exceptions import CommunicationError
        from givenergy_modbus.model.plant import Plant, PlantCapabilities
        from givenergy_modbus.model.register_cache import RegisterCache, parse_compact, to_compact
        s, t = x["saved"], x["truth"]
        r = keyed("restore", op["k"])
        bad = w.violate
        doc = json.loads(s["caps"])
        if op["form"] == "wrongver":
            for ver in (2, 0, -1, "1", "2.0.0", [1]):
                try:
                    PlantCapabilities.from_dict(dict(doc, schema_version=ver))
                    bad("a document of an unknown version was accepted", version=repr(ver))
                except ValueError:
                    pass
        form = old_form(doc, op["form"], t["caps"])
        given = copy.deepcopy(form)
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            caps = PlantCapabilities.from_dict(form)
        if form != given:
            bad("restoring changed the document", document=repr(form)[:200])
        df = compare(norm(caps_dict(caps)), norm(t["caps"]))
        if df:
            bad("restored capabilities differ", form=op["form"], fields=df, got={k: caps_dict(caps)[k] for k in df}, want={k: t["caps"][k] for k in df})
        if json.loads(json.dumps(caps.to_dict())) != doc:
            bad("saving the restored capabilities gives another document", form=op["form"])
        caches = {a: RegisterCache.from_json(j) for a, j in s["caches"].items()}
        p = Plant(register_caches=caches, capabilities=caps, inverter_serial_number=s["inv"], data_adapter_serial_number=s["ada"])
        if _caches(p) != t["caches"]:
            bad("restored registers differ", devices=[hex(a) for a in t["caches"] if _caches(p).get(a) != t["caches"][a]])
        dif = _first(summary(p), t["views"])
        if dif:
            bad("a view of the restored plant differs", view=dif[0], restored=dif[1], live=dif[2])
        # the compact dump carries every register that has a value
        text = s["compact"]
        whole = {a: {k: v for k, v in c.items() if v is not None} for a, c in t["caches"].items()}
        whole = {a: c for a, c in whole.items() if c}
        lost = None
        lines = text.splitlines()
        if op["damage"] == "reflow":
            out = ["# from 10.0.0.1:8899", "Probing 0x11 ..", ""]
            for ln in lines:
                k = ln.index(" ") + 1
                head, h = ln[:k], ln[k:]
                cuts = sorted(r.sample(range(1, len(h)), min(len(h) - 1, r.randrange(3))))
                parts = [h[a:b] for a, b in zip([0] + cuts, cuts + [len(h)])]
                out += [head + parts[0]] + ["  " * r.randrange(2) + q for q in parts[1:]]
            text = r.choice(("\n", "\r\n")).join(out)
            w.fired["disk:reflow"] += 1
        elif op["damage"] == "compactrow" and lines:
            k = r.randrange(len(lines))
            lost = lines[k]
            cut = r.randrange(1, 5)
            lines[k] = r.choice((lost[:-cut], lost + "0" * cut, lost[:-cut] + "\n" + "0" * (cut + r.randrange(1, 9))))
            if r.random() < 0.5:
                r.shuffle(lines)
            text = "\n".join(lines)
            w.fired["disk:row"] += 1
        if lost is not None:
            a, rest = lost.split(":", 1)
            bank, rest = rest.split("(", 1)
            b, n = (int(q) for q in rest.split(")")[0].split(","))
            for k in range(b, b + n):
                whole[int(a, 16)].pop((bank, k), None)
        got = {a: {(type(k).__name__, k.index): v for k, v in dict.items(c)} for a, c in parse_compact(text).items()}
        if {a: c for a, c in got.items() if c} != {a: c for a, c in whole.items() if c}:
            bad("the compact dump does not restore the registers", damage=op["damage"], devices=[hex(a) for a in whole if got.get(a) != whole[a]])
        # damaged documents
        if op["damage"] == "entries":
            w.fired["disk:entries"] += 1
            for a, j in s["caches"].items():
                d = json.loads(j)
                want = dict(t["caches"][a])
                ks = list(d)
                for q in r.sample(ks, min(len(ks), 3)):
                    d[q] = r.choice(("7", "x", True, False, 70000, -1, 65536, 1.5, [1], {"HR(0)": 3}, float("inf"), ""))
                    nm, n = q.replace("(", ":").rstrip(")").split(":") if "(" in q or ":" in q else q.split("_")
                    want.pop((nm, int(n)), None)
                for q in r.sample(ks, min(len(ks), 2)):  # explicitly unset
                    nm, n = q.replace("(", ":").rstrip(")").split(":") if "(" in q or ":" in q else q.split("_")
                    if (nm, int(n)) in want:
                        d[q] = None
                        want[(nm, int(n))] = None
                for q in ("XX(3)", "HR(a)", "foo", "IR()", "", "PR:1", "HR(1.5)"):
                    if r.random() < 0.4:
                        d[q] = 5
                c = RegisterCache.from_json(json.dumps(d))
                got = {(type(k).__name__, k.index): v for k, v in dict.items(c)}
                if got != want:
                    bad("damaged entries changed others, or were believed", device=hex(a), extra=sorted(set(got) - set(want))[:3],
                        missing=sorted(set(want) - set(got))[:3])
                again = RegisterCache.from_json(c.json())
                if {(type(k).__name__, k.index): v for k, v in dict.items(again)} != got:
                    bad("registers with unset values do not round-trip", device=hex(a))
                colon = RegisterCache.from_json(json.dumps({f"{a_}:{b_}": v for (a_, b_), v in t["caches"][a].items()}))
                if {(type(k).__name__, k.index): v for k, v in dict.items(colon)} != t["caches"][a]:
                    bad("registers saved under the older key form differ", device=hex(a))
        if op["damage"] == "torn":
            w.fired["disk:torn"] += 1
            for a, j in s["caches"].items():
                if len(j) > 2:
                    try:
                        RegisterCache.from_json(j[:r.randrange(1, len(j))])
                        bad("a torn document was accepted", device=hex(a))
                    except ValueError:
                        pass
        # offline rebuild
        spec = w.plan["dongles"][0]
        full = Topology(spec["topo"], spec["tseed"]).expected_caps()
        if t["caches"].get(0x11, {}).get(("HR", 0)) is None:
            try:
                Plant.from_caches(caches)
                bad("a plant was derived from a dump without a device type")
            except CommunicationError:
                pass
        else:
            before = _caches(p)
            # devices that once answered all-zero blocks, or a later detection that broke off after it had begun over:
            # what was found and what was saved last may differ
            blank = w.fired["zero"] or t["half"]
            off = Plant.from_caches(caches, inverter_serial_number=s["inv"], data_adapter_serial_number=s["ada"])
            c2, c1 = norm(caps_dict(off.capabilities)), norm(t["caps"])
            for k in ("meter_addresses", "lv_battery_addresses", "aio_battery_module_addresses", "hv_bmu_addresses", "bcu_stacks"):
                low = set(c1[k]) if c1["device_type"] == c2["device_type"] else set()
                if not blank and not low <= set(c2[k]) <= low | set(full[k]) or len(set(c2[k])) != len(c2[k]):
                    bad("the offline rebuild finds other devices", field=k, offline=c2[k], live=c1[k], plant=full[k])
            for k in ("device_type", "inverter_address", "arm_firmware_version"):
                if c2[k] != c1[k]:
                    bad("the offline rebuild finds another inverter", field=k, offline=c2[k], live=c1[k])
            if not blank and c2["lv_bcu_address"] != c1["lv_bcu_address"] and (c1["lv_bcu_address"] is not None or c2["lv_bcu_address"] != full["lv_bcu_address"]):
                bad("the offline rebuild finds other devices", field="lv_bcu_address", offline=c2["lv_bcu_address"], live=c1["lv_bcu_address"])
            hint = Plant.from_caches(caches, prior=caps, inverter_serial_number=s["inv"], data_adapter_serial_number=s["ada"])
            c3 = norm(caps_dict(hint.capabilities))
            if blank and compare(c3, c1):
                pass
            elif compare(c3, c1):
                bad("the offline rebuild with the saved topology differs from it", fields=compare(c3, c1), offline={k: c3[k] for k in compare(c3, c1)},
                    saved={k: c1[k] for k in compare(c3, c1)})
            else:
                dif = _first(summary(hint), t["views"])
                if dif:
                    bad("a view of the offline plant differs", view=dif[0], offline=dif[1], live=dif[2])
            # a saved topology with fewer devices names only those
            few = copy.deepcopy(caps)
            for k in LISTS:
                setattr(few, k, [q for q in getattr(few, k) if r.random() < 0.6])
            few.lv_bcu_address = r.choice((None, few.lv_bcu_address))
            c4 = caps_dict(Plant.from_caches(caches, prior=few).capabilities)
            c3 = caps_dict(hint.capabilities)
            for k in LISTS:
                keep = [q[0] if k == "bcu_stacks" else q for q in getattr(few, k)]
                want = [q for q in c3[k] if (q[0] if k == "bcu_stacks" else q) in keep]
                if k in ("aio_battery_module_addresses", "hv_bmu_addresses") and not c4["bcu_stacks"]:
                    want = []
                elif k == "hv_bmu_addresses" and not keep:
                    continue  # none known: all are looked for
                if sorted(map(repr, c4[k])) != sorted(map(repr, want)):
                    bad("the offline rebuild looks beyond the saved topology", field=k, offline=c4[k], want=want)
            if c4["lv_bcu_address"] != (c3["lv_bcu_address"] if few.lv_bcu_address is not None else None):
                bad("the offline rebuild looks beyond the saved topology", field="lv_bcu_address", offline=c4["lv_bcu_address"])
            if _caches(p) != before:
                bad("the offline rebuild changed the registers")
        x["caps"] = caps
        x["restored"] = x.get("restored", 0) + 1

    async def session(w, cl, op, rec):
        if "caps" not in x:
            return
        cur_client.set(op["client"])
        c = w.clients[op["client"]]
        other = x["sessions"].get("restored")
        n, cfg = (op["n"], op["cfg"]) if op["which"] == "restored" else (other["n"], other["cfg"]) if other else (1, True)
        c.plant.capabilities = copy.deepcopy(x["caps"]) if op["which"] == "restored" else w.mk_caps(x["truth"]["caps"])
        i0 = len(w.reqs)
        out = []
        await c.connect()
        for what in (["load_config"] if cfg else []) + ["refresh"] * n:
            try:
                await getattr(c, what)(timeout=1.0, retries=0)
                out.append("ok")
            except Exception as e:  # noqa: BLE001
                out.append(type(e).__name__)
            await asyncio.sleep(1.0)
        x["sessions"][op["which"]] = {"n": n, "cfg": cfg, "out": out, "keys": [q["key"] for q in w.reqs[i0:]], "views": summary(c.plant)}
        await c.close()

    async def confirm(w, cl, op, rec):
        if "caps" not in x:
            return
        cur_client.set(op["client"])
        c = w.clients[op["client"]]
        want = norm(w.dongles[0].topo.hinted_caps(x["truth"]["caps"], set()))
        await c.connect()
        try:
            got = norm(caps_dict(await c.detect(timeout=1.0, retries=1, probe_timeout=0.5, probe_retries=1, prior=x["caps"])))
            out = "ok"
        except Exception as e:  # noqa: BLE001
            got, out = None, type(e).__name__
        match = want is not None and not compare(want, norm(x["truth"]["caps"]), ("arm_firmware_version",))
        if match and (out != "ok" or compare(got, want)):
            w.violate("the saved topology is not confirmed on the unchanged plant", out=out, got=got, want=want)
        if not match and out != "PlantTopologyMismatch":
            w.violate("a saved topology the plant does not have was confirmed", out=out, got=got, want=want)
        x["confirmed"] = x.get("confirmed", 0) + (out == "ok")
    w.extra["calls"] = {"find": find, "poll": poll, "save": save, "kill": kill, "restore": restore, "session": session, "confirm": confirm}
    return w


def check(w):
    v = list(w.violations)
    for r in w.ops:
        if r["op"]["op"] == "call" and r["op"]["name"] in ("restore", "session", "confirm", "save") and r["out"] not in ("ok", None):
            v.append({"what": "a step on the saved documents failed", "step": r["op"]["name"], "exc": repr(r.get("exc"))})
    s = w.extra["sessions"]
    if "restored" in s and "kept" in s:
        a, b = s["restored"], s["kept"]
        if a["keys"] != b["keys"] or a["out"] != b["out"]:
            k = next((k for k, (p, q) in enumerate(zip(a["keys"], b["keys"])) if p != q), min(len(a["keys"]), len(b["keys"])))
            v.append({"what": "the restarted client polls differently", "at": k, "restored": a["keys"][k:k + 3], "kept": b["keys"][k:k + 3], "out": [a["out"], b["out"]]})
        dif = _first(a["views"], b["views"])
        if dif:
            v.append({"what": "the restarted client shows another plant", "view": dif[0], "restored": dif[1], "kept": dif[2]})
    return v


def nontrivial(w):
    return w.extra.get("restored", 0) > 0


def probes(w):
    return {k: w.extra.get(k, 0) for k in ("saves", "restored", "confirmed")}
