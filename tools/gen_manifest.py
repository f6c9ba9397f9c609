#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
T = {
 "C01": ("differential monitor: independent ORC reader decodes every file written and compares with the model rows", "exploration"),
 "C02": ("differential monitor: independent ORC reader reconstructs nested rows and compares with the model", "exploration"),
 "C03": ("layout monitor over recorded files: every declared range tiles the file; tail-keeping sink for files over 4 GiB", "exploration"),
 "C04": ("chunk-walking monitor over every compressed section, with independent decompressors, and comparison with the uncompressed streams", "exploration"),
 "C05": ("statistics oracle recomputed from the model rows in wide arithmetic, per stripe", "exploration"),
 "C06": ("statistics oracle recomputed from the model rows in wide arithmetic, whole file", "exploration"),
 "C07": ("statistics oracle recomputed from the model rows in wide arithmetic, per row group", "exploration"),
 "C08": ("seek monitor: decodes from every recorded row-index position and compares with the model", "exploration"),
 "C09": ("row-group boundary monitor against the table rows", "exploration"),
 "C10": ("schema oracle over the footer types and stream tables", "exploration"),
 "C11": ("stripe partition monitor over destination lengths, with a measuring second writer", "exploration"),
 "C12": ("metamorphic monitor: equal bytes over call orders, accessors and divisions into batches", "exploration"),
 "C13": ("fault injection: short and interrupted writes at enumerated calls; byte equality with an undisturbed run", "fault_enumeration"),
 "C14": ("fault injection: failures at enumerated byte offsets, calls and flushes; prefix and error-reporting monitor", "fault_enumeration"),
 "C15": ("rejection monitor over enumerated inconsistencies of generated histories, in a build without overflow checks", "exploration"),
 "C16": ("panic and error monitor with overflow checks on over valid extreme workloads", "exploration"),
 "C17": ("isolation monitor: bytes of interleaved, concurrent, repeated, post-failure and other-process executions compared", "exploration"),
 "C18": ("heap monitor: counting global allocator against stripe-derived bounds", "exploration"),
 "C19": ("AddressSanitizer + LeakSanitizer (Rust and C), valgrind memcheck, Miri over the harness workloads", "exploration"),
 "C20": ("run-length grammar monitor over every decompressed stream, with size bounds", "exploration"),
 "C21": ("destination monitor between calls, checked offline against the finished file's footer", "exploration"),
 "C22": ("differential monitor of the message types against an independent wire encoder driven by the published .proto", "exploration"),
 "C23": ("metamorphic monitor over random sequences of configuration calls: files equal those of plainly built configurations and show the settings", "exploration"),
 "C24": ("handle monitor: every accessor's answer after every call compared with the schema model and with measured stripe sizes", "exploration"),
 "C25": ("instruction counting by dynamic binary instrumentation (callgrind) at growing sizes along each dimension; cost per unit must not grow", "exploration"),
}
NOTE = {
 "C13": "Every destination call position (up to a cap per workload, reported in the evidence) of every workload gets an interruption and a one-byte acceptance; besides, 1-, 2-, 3- and 7-byte sinks and random ones. Workloads are sampled.",
 "C14": "Every byte offset and call position (up to a cap per workload, reported in the evidence) of every workload fails with rotating error kinds, once and for good, with and without a retry; workloads are sampled.",
 "C09": "Holds for columns that are not nested; nested ones are the recorded finding (known-findings.txt), and any other deviation is reported. Sampled histories; trusts the harness's model of the row groups.",
 "C19": "No sanitizer report on the executions made. MemorySanitizer needs an instrumented standard library and is not used; valgrind covers uninitialised memory including the native zstd code; Miri covers the Rust code without zstd.",
 "C25": "Counts are nearly deterministic (on the unchanged tree the cost per unit in the last doubling is within 3 % of the earlier ones; the limit is 20 to 25 %, confirmed at three times the size). Growth with a very small constant, system calls and page faults are not seen.",
 "C18": "Bounds are checked on the executions made, by a thread-local counting allocator (Rust heap) and mallinfo2 (native heap); constants in DESIGN.md.",
}
D = "Checked on directed and generated histories of the real writer, sampled by seed; trusts the harness's own model and, where files are read, its independent reader written from the ORC specification."
have = os.environ.get("CLAIM", " ".join(T)).split()
checks = []
for i in have:
    t, l = T[i]
    checks.append({"property": i, "quick_cmd": f"./check.sh {i}", "thorough_cmd": f"env VERIF_TIER=thorough ./check.sh {i}", "technique": t, "level": l, "level_note": NOTE.get(i, D)})
m = {"version": 1, "setup_cmd": "./check.sh build", "checks": checks,
     "not_applicable": [{"property": i, "reason": "check under construction"} for i in T if i not in have],
     "notes": "No hooks in /repo: everything is observed through the public API, the destination, the allocator and the sanitizers. known-findings.txt lists the defects found; ./check.sh replay <file> repeats a reported execution."}
json.dump(m, open(os.path.join(os.path.dirname(__file__), "..", "MANIFEST.json"), "w"), indent=1)
