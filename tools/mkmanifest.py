#!/usr/bin/env python3
"""Writes MANIFEST.json from the table of checks."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
sys.dont_write_bytecode = True
import checks
LOCK = "lockstep reference-model monitor over recorded histories (exhaustive small + seeded random), debug-assertion and release builds"
TECH = {
 "P06": LOCK + ", with panics injected at every callback invocation",
 "P09": LOCK + ", with a ledger of every value's creation and drop",
 "P10": LOCK + "; exhaustive front/back interleavings",
 "P11": LOCK + "; exhaustive front/back interleavings",
 "P13": LOCK + "; exhaustive front/back interleavings",
 "P18": "runtime monitor of ID exhaustion for every ID type and creating operation; consistency oracle over all IDs",
 "P20": "Miri (tree and stacked borrows) and AddressSanitizer over monitored hostile histories",
 "P21": "ThreadSanitizer and Miri race detection with a concurrent-reader equality oracle; runtime probe of Send/Sync",
 "P22": "stack-limit monitor: every operation on degenerate trees in a process with a small stack, debug and release",
 "P23": "counting-allocator monitor around every read operation over generated trees",
 "P24": "instruction-count monitor (valgrind) at growing sizes against cost bounds",
 "P26": "differential trace monitor: the same histories with std, in a freestanding program on core and alloc, and under Miri on 32-bit and big-endian targets without std",
 "P25": "differential trace monitor: identical histories in several builds and ID types, traces compared",
}
NOTE = {
 None: "Held on the executions explored (counts in the evidence file), not proved; trusts the small executable model in base/src/model.rs and observes through the public interface only.",
}
NA = {}
extra = json.load(open(os.path.join(V, "tools", "notes.json"))) if os.path.exists(os.path.join(V, "tools", "notes.json")) else {}
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "python3 setup.py", "checks": [], "not_applicable": [],
     "notes": "No hooks in /repo are needed: everything is observed through the public interface. Fixed defects: known-findings.txt and DESIGN.md."}
for i in ids:
    if i in checks.CHECKS:
        m["checks"].append({"property": i, "quick_cmd": f"python3 check.py {i}",
                            "thorough_cmd": f"VERIF_TIER=thorough python3 check.py {i}",
                            "evidence_file": f"evidence/{i}.json",
                            "technique": TECH.get(i, LOCK), "level": "exploration",
                            "level_note": extra.get(i, NOTE[None])})
    else:
        m["not_applicable"].append({"property": i, "reason": NA.get(i, "No check yet (work in progress).")})
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
