#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
here = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l) for l in open(os.path.join(here, "..", "properties.jsonl"))]
NA = {
  "C20": "A pure function from a descriptor string or an integer to a string: no concurrency, time, I/O, crash or multi-party behaviour for a simulator to vary. (The reports' oracle renders descriptors and sizes independently, so C01-C03 see wrong ones as a by-product.)",
}
TRUST = ("Trusted: the simulated disk, clock and process model (sim/), the dump generator and its report oracle, the Go toolchain. "
  "The whole of neojhat and the Go library above the system-call layer run for real. Assurance is that of a seeded search: what was not sampled is not covered.")
LEVEL = {
 "C01": "Simulated runs of `threads` on generated heaps under benign I/O faults; stdout compared with an independent oracle.",
 "C02": "Simulated runs of `objects` and `summary` on generated heaps under benign I/O faults; every row and total compared with an independent oracle.",
 "C03": "Simulated runs of `summary` on generated heaps under benign I/O faults; every line and property compared with an independent oracle.",
 "C04": "Dumps whose locals refer to every object, with object counts around index batch limits; every object looked up through the reports.",
 "C05": "Seeded command histories under seeded map orders, each report compared byte for byte with that of a fresh copy; dump and index bytes compared.",
 "C06": "Dumps cut at seeded positions (record boundaries and inside records preferred), histories of runs around the cut and the completion.",
 "C07": "Kills at seeded system calls (before, in the middle and after), repeated, then clean runs judged against the oracle.",
 "C08": "Power loss at seeded system calls with seeded loss of unsynced pages and directory operations, then clean runs judged against the oracle.",
 "C09": "Seeded write-side failures (mkdir, create, write, fsync, close, rename; transient and lasting), then clean runs judged against the oracle.",
 "C10": "Seeded read-side failures (open, fstat, read, pread, seek, readdir), then clean runs judged against the oracle.",
 "C11": "Seeded failures of stdout after any number of bytes in all formats; prefix and exit status judged.",
 "C12": "Interactive runs under seeded timing, stalls and terminal faults on whole and malformed dumps; the display's byte stream judged, the report compared with a non-interactive one.",
 "C13": "Two to several concurrent processes under a seeded discrete-event schedule, some stalled or killed; every report judged.",
 "C14": "Seeded corruptions of dumps; termination, allocation and ending of every run judged.",
 "C15": "Every mutating system call of every simulated process under failures and kills judged against the allowed set of paths; leftovers checked.",
 "C16": "Unsupported elements at seeded positions, with histories of several commands; report or refusal judged.",
 "C17": "Replacement of the dump between runs that may be killed, lose power or fail; reports judged against the new dump.",
 "C18": "The three formats and options compared on the same dumps with hostile strings; HTML parsed and compared with the oracle's facts.",
 "C21": "Every byte and call of simulated runs on dump and index counted, on dumps with many objects or large payloads and under short and interrupted calls; judged against bounds that are linear in the dump for indexing and logarithmic per look-up afterwards.",
 "C22": "Histories of commands spelled in seeded ways, with seeded mistakes, missing dumps, environments and benign I/O faults; reports compared byte for byte with those of one canonical spelling, refusals judged by message, status and an unchanged file system.",
 "C19": "Sparse dumps of several GiB on the simulated disk; reports, progress display and allocation judged.",
}
m = {"version": 1, "setup_cmd": "./build.sh",
 "checks": [{"property": p["id"], "quick_cmd": f"./check.sh {p['id']} quick", "thorough_cmd": f"./check.sh {p['id']} thorough",
   "evidence_file": f"evidence/{p['id']}.json", "technique": "deterministic simulation with fault injection",
   "level": "exploration", "level_note": LEVEL[p["id"]] + " " + TRUST} for p in props if p["id"] not in NA],
 "not_applicable": [{"property": i, "reason": r} for i, r in NA.items()],
 "notes": "No hooks in /repo: the seam is the Go standard library below neojhat, replaced at build time with go build -overlay (sim/overlay.py). Known findings and repairs: known-findings.txt."}
json.dump(m, open(os.path.join(here, "..", "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
open(os.path.join(here, "..", "MANIFEST.json"), "a").write("\n")
