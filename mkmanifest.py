#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the table of properties that are not claimed."""
import json
na = {}
notes = {
 "C27": "Seeded search over thread schedules and inputs, not exhaustive; sequentially consistent atomics. The library runs in a client program of ours (probe/). Trusts sim/shim.c (scheduling, heap) and the models in sim/src/models.rs and probe.rs.",
 "C28": "Seeded search over thread schedules, not exhaustive; most runs are stopped after the first or second of the eight lengths. src/unfinished/parallel.rs is compiled unmodified, by a Cargo package of ours (parallel/); the crate no_deadlocks it names is not installed and is replaced by std's locks (the simulator itself detects deadlocks).",
 "C26": "Seeded search; memory is what the allocator interface hands out (heap seam in sim/shim.c), not resident pages.",
 "default": "Seeded search over simulated worlds, not exhaustive. Trusts sim/shim.c as the model of the kernel boundary (files, pipes, clocks, entropy, heap limits, scheduling at I/O calls), the models in sim/src/models.rs, and that the tools reach the kernel only through the interposed libc calls.",
}
props = [json.loads(l) for l in open('properties.jsonl')]
checks = []
for p in props:
    i = p['id']
    if i in na: continue
    checks.append({"property": i, "quick_cmd": f"./check.sh {i}", "thorough_cmd": f"VERIF_TIER=thorough ./check.sh {i}", "technique": "deterministic simulation with fault injection (seeded search, real tools in a simulated kernel boundary)", "level": "exploration", "level_note": notes.get(i, notes["default"])})
m = {"version": 1, "setup_cmd": "./build.sh", "checks": checks, "not_applicable": [{"property": k, "reason": v} for k, v in na.items()]}
json.dump(m, open('MANIFEST.json', 'w'), indent=1); open('MANIFEST.json', 'a').write('\n')
