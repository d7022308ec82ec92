#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {
    "C01": "runtime monitoring: independent parser over every byte written, tagged concurrent histories",
    "C02": "runtime monitoring: reference decoder against deliveries under hostile segmentation",
    "C03": "runtime monitoring: exactly-once and per-sender order over event logs, fault injection at the peer",
    "C04": "runtime monitoring: reference parser, allocation, panic and exit monitors under malformed input",
    "C10": "runtime monitoring: reference model beside the real value, checked after every operation",
    "C11": "runtime monitoring: handshake state machine over recorded sessions",
    "C12": "runtime monitoring: handshake state machine over recorded sessions with delays",
    "C13": "runtime monitoring: fault injection with panic, error and bounded-progress monitors",
    "C14": "runtime monitoring: trace monitor (nothing after exit)",
    "C15": "runtime monitoring: heap, thread and descriptor accounting over doubling workloads",
    "C16": "runtime monitoring: queue checker over concurrent histories",
    "C17": "runtime monitoring: comparison of recorded sessions across transports",
    "C22": "runtime monitoring: lockstep progress monitor with one direction blocked",
    "C23": "runtime monitoring: conservation checker over send attempts",
    "C24": "runtime monitoring: per-connection trace checkers with faults in the neighbours",
    "C28": "runtime monitoring: outcome, exchange and descriptor accounting over attempts with injected failures",
    "C29": "runtime monitoring: processor time and wake-ups of every thread, read from /proc while sessions wait",
    "C30": "runtime monitoring: processor time per message compared across sizes and session lengths",
    "C31": "runtime monitoring: wall time of every message from send to receive by place in a session, repeated",
    "C25": "sanitizers: ThreadSanitizer, AddressSanitizer with LeakSanitizer, Miri",
}
checks = []
for line in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(line)
    i = p["id"]
    checks.append({
        "property": i,
        "quick_cmd": f"./check.sh {i} quick",
        "thorough_cmd": f"./check.sh {i} thorough",
        "technique": TECH.get(i, "runtime monitoring: reference model (schema and method tables) over generated inputs"),
        "level": "exploration",
        "level_note": "Held on the executions driven in that run, as counted in the evidence; trusted are the reference models and generators in harness/ and the driver.",
    })
json.dump({
    "version": 1,
    "setup_cmd": "python3 driver/check.py --build plain",
    "checks": checks,
    "not_applicable": [],
    "notes": "No hooks in /repo: all observation is through the public API, raw sockets and pipes, a counting allocator, /proc and sanitizers. Known findings and repaired defects: known_findings.txt.",
}, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
