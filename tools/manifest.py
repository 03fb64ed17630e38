#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json for the properties whose monitors are built."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
TECH = {
 "A": ("runtime monitoring: online oracle (exact big-integer/rational reference) over enumerated 8-bit and boundary-biased wide operands",
       "every 8-bit operand pair is executed; wider types are sampled with bias to overflow edges, so a fault confined to an unsampled value of a wide type can be missed; trusts math/big and math"),
 "C": ("runtime monitoring: online model-based trace checker over generated operation histories on the real collections",
       "sampled histories (short exhaustive-like and long ones) checked step by step against an ideal model; faults needing a history outside the generators' reach can be missed"),
 "O": ("runtime monitoring: online oracle over all operations, callback-count monitors and generated compositions",
       "all operations on all variants are executed with counting callbacks; value space is sampled"),
 "S": ("runtime monitoring: differential oracle (independent reference) over generated text",
       "sampled texts and patterns with bias to multi-byte, overlapping and boundary cases"),
 "F": ("runtime monitoring: output-trace checker over generated templates and concurrent printers (race detector on the concurrent part)",
       "sampled templates and schedules; output captured through real pipes"),
 "T": ("runtime monitoring: exact reference arithmetic / monotonic-clock monitor over generated durations",
       "sampled durations with bias to carry boundaries and 64-bit extremes"),
 "M": ("runtime monitoring: Go race detector plus linearizability and exactly-once checkers over recorded histories of stress runs with injected delays",
       "schedules are explored by stress, injected yields and sleeps and several GOMAXPROCS settings, not enumerated"),
 "D": ("runtime monitoring: model-based trace checker of a scratch file tree, with injected faults (missing, wrong kind, no permission, full device, special files)",
       "sampled histories and contents in a scratch directory as an unprivileged user; crash consistency is not claimed"),
 "P": ("runtime monitoring: comparison counters in the elements, a capacity monitor, an adaptive adversary against sorting, and thread processor time of large against small collections",
       "cost classes are judged by limits several times above any algorithm of the class, at sizes to 100000 (thorough to 250000); a change of constant is not a violation, and one of class that shows only at larger sizes can be missed"),
 "P02": ("runtime monitoring: resource monitors (open descriptors and mappings in /proc with collection suspended, running threads, memory after collection, process settings) around fault-injected histories and long repetitions",
       "sampled histories and faults; memory growth below about 30 bytes per call, or only after more than 12000 calls, can be missed"),
}
NA = {}
built = os.environ.get("BUILT")
built = set(built.split(",")) if built else {p["id"] for p in props} - set(NA)
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": [], "not_applicable": [],
     "notes": "No hooks in /repo: every monitor observes the public API from outside, so the checks survive refactoring. /repo's added commits are 'fix:' commits only, listed in known-findings.txt."}
for p in props:
    i = p["id"]
    if i in built:
        t, n = TECH.get(i) or TECH[i[0]]
        m["checks"].append({"property": i, "quick_cmd": "./check %s --tier quick" % i, "thorough_cmd": "./check %s --tier thorough" % i,
                            "technique": t, "level": "exploration", "level_note": n, "evidence_file": "evidence/%s.json" % i})
    else:
        m["not_applicable"].append({"property": i, "reason": NA.get(i, "its monitors are not built yet")})
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "checks,", len(m["not_applicable"]), "not claimed")
