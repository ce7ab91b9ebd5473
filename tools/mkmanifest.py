#!/usr/bin/env python3
"""Writes MANIFEST.json for the checks listed here."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MODEL = "runtime monitoring: "
T = {
 "C02": "allocation ledger and basic-block counter (sanitizer coverage instrumentation) with limits per byte and per null, and growth families",
 "C01": "crash, panic and standstill monitor over three builds (debug, checked, release); generated, altered and degenerate inputs on small stacks",
 "C03": "values built with known contents at every position, compared bit by bit with what the crate returns; independent reference decoder as oracle",
 "C04": "string values and address-range monitor over every returned slice, generated lengths and prefix spellings",
 "C05": "reference-model monitor over generated arrays and null runs, exhaustive small partitions",
 "C06": "reference-model monitor over generated shapes, null-run layouts and dimension faults",
 "C07": "reference-model monitor over generated class graphs",
 "C08": "reference-model monitor over generated histories of class declarations and repeated instances",
 "C09": "reference-model monitor over generated object graphs; model mutation of ids",
 "C10": "reference-model monitor over generated library placements and numberings",
 "C11": "construction oracle over generated method calls and returns",
 "C12": "exhaustive run over the flag combinations against the stated rule",
 "C13": "construction oracle over prefixes, suffixes and header faults of accepted messages",
 "C14": "construction oracle over permuted records and root ids",
 "C15": "fault injection into codes, ids and counts of accepted messages, verdict monitor",
 "C16": "serde event recorder compared with the parsed value, over generated messages and target types",
 "C17": "construction oracle for wrapper classes under serde event recorders",
 "C18": "construction oracle: ticks, kinds, spans and decimal texts",
 "C19": "trace checker over logged calls of histories, addresses and thread schedules against fresh processes (fork per input); ThreadSanitizer with rebuilt std; allocator-injected delays",
 "C20": "differential monitor: digests of results from six configurations of the crate (profiles with and without serde)",
 "C21": "AddressSanitizer, Miri, guard pages and read-only input, allocation ledger for leaks, validity monitor over every text, char and bool",
 "C22": "single-fault injection, monitor over the error texts",
 "C23": "relation monitor: ==, != and copies of pairs of results against a structural comparison of their contents read independently",
}
NOTE = "Held on the executions counted in the evidence file: seeded, randomly generated and partly enumerated inputs, run through the real crate with debug assertions and overflow checks on. Trusts the reference decoder and the generators in harness/src."
checks = [{"property": k, "quick_cmd": f"./run.sh {k}", "thorough_cmd": f"VERIF_TIER=thorough ./run.sh {k}", "evidence_file": f"evidence/{k}.json",
           "technique": MODEL + v, "level": "exploration", "level_note": NOTE} for k, v in sorted(T.items())]
ids = [json.loads(l)["id"] for l in open(os.path.join(here, "properties.jsonl"))]
na = [{"property": i, "reason": "check under construction"} for i in ids if i not in T]
json.dump({"version": 1, "setup_cmd": "./run.sh setup", "checks": checks, "not_applicable": na,
           "notes": "No hooks in /repo: every monitor observes the public API, the allocator, the process or the addresses."}, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
