"""Queries over a recorded history."""
import collections

from .topo import refresh_banks  # noqa: F401


class History:
    def __init__(self, w):
        self.w = w
        self._good = collections.defaultdict(list)
        self._err = collections.defaultdict(list)
        self._byreg = collections.defaultdict(list)
        for x in w.rx:
            f = x.f
            if x.td is None or f is None or f.kind not in ("read", "write"):
                continue
            if f.error:
                self._err[f.key()].append(x)
            elif f.kind == "write" or f.crc_ok:
                self._good[f.key()].append(x)
        self.conns = sorted(w.conn_info.items(), key=lambda kv: kv[1]["open_seq"])

    def key_of(self, op):
        if op["op"] == "read":
            return (op["addr"], op["func"], op["base"], op["count"])
        return (op.get("addr", 0x11), 6, op["reg"])

    def good_frames(self, key):
        return self._good.get(key, [])

    def err_frames(self, key):
        return self._err.get(key, [])

    def damaged(self):
        return any(not x.intact for x in self.w.rx)

    def conn_at(self, client, t):
        """Connections of a client that may count as current at time t (the latest, and one replaced at that instant)."""
        mine = [(cid, c) for cid, c in self.conns if c["client"] == client and c["open"] <= t + 1e-9]
        if not mine:
            return set()
        out = {mine[-1][0]}
        for cid, c in mine[:-1]:
            if c["closed"][0] is None or c["closed"][0] >= t - 1e-9:
                out.add(cid)
        return out

    def values_for(self, addr, func, reg, seq_from, seq_to):
        """Values any accepted frame could have given a register in [seq_from, seq_to]."""
        out = set()
        for key, xs in self._good.items():
            if key[0] != addr:
                continue
            if len(key) == 4 and key[1] == func and key[2] <= reg < key[2] + key[3]:
                out.update(x.f.values[reg - key[2]] for x in xs if seq_from <= x.seqd <= seq_to)
            elif len(key) == 3 and func == 3 and key[2] == reg:
                out.update(x.f.value for x in xs if seq_from <= x.seqd <= seq_to)
        return out

    def attempts(self, r, key):
        """Transmissions of `key` by this call's client during the call."""
        t1 = r["t1"] if r["t1"] is not None else 1e18
        return [x for x in self.w.tx if x.f is not None and x.f.key()[:4] == self._txkey(key) and x.client == r["client"]
                and r["s0"] <= x.seq and x.t <= t1]

    @staticmethod
    def _txkey(key):
        return key

    def missed_answer(self, r, key):
        """An intact matching answer that arrived inside an attempt's waiting window, although the call failed."""
        to = r["op"].get("timeout", 1.0)
        val = r["op"].get("val") if r["op"].get("op") == "write" else None  # an acknowledgement echoes the value
        for x in self.attempts(r, key):
            if val is not None and x.f.value != val:
                continue
            lost = self.w.conn_info[x.conn]
            end = x.t + to - 1e-6
            errs = [e.td for e in self.err_frames(key) if e.conn == x.conn and x.t <= e.td <= end]
            if errs:
                end = min(end, min(errs) - 1e-9)
            for f in self.good_frames(key):
                if f.conn != x.conn or not (x.t < f.td < end) or val is not None and f.f.value != val:
                    continue
                if lost["lost_seq"] is not None and f.seqd > lost["lost_seq"]:
                    continue
                if f.td > (r["t1"] if r["t1"] is not None else 1e18):
                    continue
                return {"sent": x.t, "answered": f.td, "timeout": to}
        return None

    def overlaps(self):
        n = 0
        ops = [r for r in self.w.ops if r["op"]["op"] not in ("sleep",) and r["t1"] is not None]
        for i, a in enumerate(ops):
            for b in ops[i + 1:]:
                if a["t0"] < b["t1"] and b["t0"] < a["t1"] and a["client"] == b["client"]:
                    n += 1
        return n
