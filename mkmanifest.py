#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json
TECH = {
 "C01": "deterministic simulation: seeded visiting orders of every unordered collection, outcome equality plus executable reference grammar model",
 "C02": "deterministic simulation: seeded stream delivery and read-ahead faults, whole-parse refinement against an executable reference grammar model",
 "C03": "deterministic simulation: seeded sessions of rule evaluations with put-back on one faulty stream, character accounting plus reference model",
 "C04": "deterministic simulation: every cut point and seeded damage of the simulated stream, compared with the whole delivered text and the reference model",
 "C05": "deterministic simulation: seeded statement-level scheduler over concurrent parses, solo-equality oracle, plus simulated runs under the race detector",
 "C06": "deterministic simulation: abort injected at stream operations under a seeded scheduler, later and concurrent parses compared with an untouched twin",
 "C07": "deterministic simulation: seeded scheduler over stream operations, linearizability check of the recorded history, plus race detector",
 "C08": "deterministic simulation: seeded delivery, look-ahead and concurrent position observers, true line/column oracle",
 "C09": "deterministic simulation: injected open/fstat/read faults (short, EINTR, EIO, lying size) against a fault-free twin",
 "C10": "deterministic simulation: seeded histories with cut-off and corrupted definitions, compared with a twin without the rejected attempts",
 "C11": "deterministic simulation: seeded histories of additions, validations and parses, compared with a grammar built at once and the reference model",
 "C12": "deterministic simulation of the command line process: injected open/fstat/read/write faults, output sections compared with complete-content twins",
 "C13": "deterministic simulation: seeded scheduler over parses and edits of returned trees, snapshot and fresh-grammar oracles",
 "C14": "deterministic simulation: seeded visiting orders of every unordered collection, byte equality of dumps and diagnostics",
 "C15": "deterministic simulation: bounded liveness in statements executed under seeded delivery, cut-offs, stalls and schedules",
 "C16": "deterministic simulation: seeded concurrent embedded scans, partition and earliest-match oracle from the reference model",
}
NOTE = "Seeded search: a clean batch is evidence for the sampled executions, not proof. Trusts the reference model/oracle in sim/, the source instrumenter (statement-level preemption, simulated locks, simulator-chosen map order) and the Go toolchain."
NA = {
 "C21": "Printing a rule and parsing the print is a pure function of one grammar text: no scheduling, time, I/O, fault or history takes part, so simulation adds nothing to a plain input generator. (The library is also known not to satisfy it: quotes inside literals are not escaped when printed.)",
 "C22": "Tree simplification is a pure function of one tree; nothing the simulator controls influences it. What concurrency and sharing can do to it is decided under C05 and C13.",
 "C23": "Checking one definition is a pure function of its text. What a rejected definition leaves behind, which is a history property, is decided under C10.",
 "C24": "The library does not detect left recursion at all (it overflows the stack, documented as a to-do), and whether a grammar is left recursive is a static fact of its text that no schedule or fault influences.",
 "C25": "The bounds are a pure function of rule and text, no schedule, time or fault involved; the reference model used by C02, C03 and C16 includes them.",
 "C26": "Annotation flags are a pure function of the grammar text; the reference model used by C01-C04 includes them.",
}
checks = []
for p in sorted(TECH):
    checks.append({
        "property": p,
        "quick_cmd": f"./check.sh {p} quick",
        "thorough_cmd": f"./check.sh {p} thorough",
        "evidence_file": f"evidence/{p}.json",
        "technique": TECH[p],
        "level": "exploration",
        "level_note": NOTE,
    })
m = {
 "version": 1,
 "setup_cmd": "./setup.sh",
 "checks": checks,
 "not_applicable": [{"property": k, "reason": v} for k, v in sorted(NA.items())],
 "notes": "No hooks in /repo: instrumentation is generated from /repo's current tree into a scratch folder and applied with 'go build -overlay'. Replays: './replay.sh FILE'.",
}
json.dump(m, open("MANIFEST.json", "w"), indent=1)
open("MANIFEST.json", "a").write("\n")
