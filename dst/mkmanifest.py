"""Source of MANIFEST.json (run:  python3 -m dst.mkmanifest)."""
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))
PY = "/opt/venv/bin/python"
PURE = "pure function of its input: no schedule, clock, I/O, peer or fault for a simulator to decide; sampling inputs would be plain " \
       "property-based testing"
NA = {
    "N03": "Building command requests is a " + PURE + ". (What may reach the wire through the client is P08; that a setting takes effect on the device as stated is P33.)",
    "N04": "Register conversion is a " + PURE + ". (That views never fail on received histories is P30; that what they show after a received history is the exact reading is P34.)",
}


def main():
    checks, na = [], []
    with open(os.path.join(HERE, "..", "properties.jsonl")) as f:
        for line in f:
            p = json.loads(line)
            pid = p["id"]
            if pid in NA:
                na.append({"property": pid, "reason": NA[pid]})
            elif os.path.exists(os.path.join(HERE, "props", pid.lower() + ".py")):
                checks.append({
                    "property": pid,
                    "quick_cmd": f"{PY} -m dst.run {pid} --tier quick",
                    "thorough_cmd": f"{PY} -m dst.run {pid} --tier thorough",
                    "technique": "deterministic simulation with fault injection: seeded search over schedules, segmentations, clock "
                                 "behaviour and fault sequences on a virtual-time event loop and simulated TCP; invariants during the run "
                                 "and oracles over the recorded history",
                    "level": "exploration",
                    "level_note": "the real client, framer, codec, plant and asyncio run unmodified against a simulated peer; explores a fixed "
                                  "number of seeds derived from VERIF_SEED, so absence of a violation is evidence over those runs, not proof",
                    "evidence_file": f"evidence/{pid}.json",
                })
            else:
                na.append({"property": pid, "reason": "no check registered yet (work in progress)"})
    m = {"version": 1, "setup_cmd": f"{PY} -c \"import asyncio, sys; assert sys.version_info[:2] >= (3, 11)\"",
         "hooks": {"guard": "none", "enable": "not needed: every seam (event loop, sockets, clocks, randomness, logging) is replaced from outside the "
                   "package", "source_commits": []},
         "checks": checks, "not_applicable": na}
    with open(os.path.join(HERE, "..", "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
