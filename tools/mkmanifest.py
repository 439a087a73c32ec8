#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and the checks that exist."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
 "C01": ("runtime monitor: round trip of executed generated code", "exploration", "Bounded, seeded exploration of schemas and values; trusts tsc, node and the stand-in for the packet runtime."),
 "C02": ("runtime trace monitor: primitive reads/writes compared with a reference codec", "exploration", "Every call on the instrumented packet runtime and every byte is compared; explores bounded, seeded schemas and values."),
 "C03": ("runtime monitor: decoder under packet fuzzing with a reference decoder as oracle", "exploration", "Bounded, seeded packets; array lengths above the workload's bound are skipped (known finding)."),
 "C04": ("runtime monitor: strict TypeScript compiler over generated modules", "exploration", "Bounded, seeded schemas with adversarial names; trusts tsc 5.9 and the declared runtime interface."),
 "C05": ("runtime monitor: declared types seen through the TypeScript checker compared with the schema", "exploration", "Bounded, seeded schemas; trusts the TypeScript checker API."),
 "C06": ("runtime monitor: outcome oracle (reference checker) over schemas with injected problems", "exploration", "Bounded, seeded schemas; the reference checker decides which problems exist."),
 "C07": ("runtime monitor: outcome oracle over well-formed schemas and permutations", "exploration", "Bounded, seeded schemas and declaration orders over several processes (hash seeds)."),
 "C08": ("runtime monitor: diagnostics judged by a reference parser and checker", "exploration", "Bounded, seeded rejected inputs; parse positions accepted within the offending token."),
 "C09": ("runtime monitor: differential against a reference parser", "exploration", "Bounded, seeded texts, near misses and exhaustive short token sequences; read back from the generated module."),
 "C10": ("crash/hang/overflow sanitizer: panics, overflow checks, debug assertions, CPU watchdog, under fuzzing", "exploration", "Bounded, seeded texts; termination judged by processor time spent."),
 "C11": ("runtime monitor: results across histories, processes and threads compared", "exploration", "Bounded, seeded histories; interleavings as the scheduler gives them."),
 "C12": ("runtime monitor: exhaustive wire values over executed generated enum codecs", "exploration", "All enum sizes and positions; exhaustive for 8 and 16 bit wire values, directed and random for 32 bit."),
 "C13": ("file system monitor over CLI runs", "exploration", "Bounded, seeded directory trees; expected tree derived independently and contents from the compiler library."),
 "C14": ("file system monitor over CLI runs with bad schemas", "exploration", "Bounded, seeded trees; complete before/after snapshots."),
 "C15": ("fault injection at the system-call wrappers of the CLI, with a file system monitor", "fault_enumeration", "Every fault position of each kind in the scenarios, each with several errors; faults injected by an LD_PRELOAD library."),
 "C16": ("runtime monitor: metamorphic comparison of two compilations", "exploration", "Bounded, seeded schemas and edits."),
 "C17": ("runtime monitor: histories of encode/decode calls with aliasing and mutation monitors", "exploration", "Bounded, seeded histories on the instrumented packet runtime."),
 "C18": ("runtime monitor: compilations under a preloaded clock; modules loaded in a watched context", "exploration", "Bounded, seeded schemas, times from 1970 to 9999 and 7 time zones; trusts tsc and node."),
}
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
checks, missing = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(ROOT, "checks", i + ".js")):
        t, level, note = T[i]
        checks.append({"property": i, "quick_cmd": "VERIF_TIER=quick node run.js " + i, "thorough_cmd": "VERIF_TIER=thorough node run.js " + i, "technique": t, "level": level, "level_note": note})
    else:
        missing.append({"property": i, "reason": "its check is not built yet"})
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": missing,
     "notes": "Technique family: runtime monitoring and sanitizers. No hooks in /repo are needed: everything is observed through the public API, the generated code and the file system. See DESIGN.md."}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(ROOT, "MANIFEST.json"), "a").write("\n")
