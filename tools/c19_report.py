#!/usr/bin/env python3
"""Judges the logs of c19.sh's runs, writes the evidence file, prints the verdict."""
import json, os, re, sys
logs, seed, tier, wall, root = sys.argv[1:6]
MARKS = [
    (r"ERROR: AddressSanitizer: (?!out-of-memory|allocation-size-too-big|requested allocation|stack-overflow)", "AddressSanitizer"),
    (r"ERROR: LeakSanitizer: detected memory leaks", "LeakSanitizer"),
    (r"unsafe precondition\(s\) violated", "standard library precondition"),
    (r"Undefined Behavior:", "Miri"),
    (r"error: memory leaked:", "Miri leak"),
]
bad, notes, observed, distinct, runs = [], [], {}, 0, {}
for f in sorted(os.listdir(logs)):
    if not f.endswith(".rc"): continue
    name = f[:-3]
    rc = int(open(f"{logs}/{f}").read().strip() or -1)
    text = open(f"{logs}/{name}.log", errors="replace").read()
    tool = re.sub(r"\d+$", "", name)
    hit = next((w for p, w in MARKS if re.search(p, text)), None)
    if not hit and tool == "valgrind" and rc == 99: hit = "valgrind memcheck"
    # a trap of UndefinedBehaviorSanitizer, or an access outside any mapping
    if not hit and rc in (132, 135, 139) and "stack-overflow" not in text and "overflowed its stack" not in text: hit = f"signal {rc - 128}"
    cov = {}
    if os.path.exists(f"{logs}/{name}.cov"):
        for l in open(f"{logs}/{name}.cov"):
            k, _, v = l.rstrip("\n").rpartition("=")
            if k: cov[k] = int(v)
    distinct += cov.pop("distinct", 0)
    for k, v in cov.items(): observed[f"{tool}: {k}"] = observed.get(f"{tool}: {k}", 0) + v
    if hit: bad.append((name, hit, text))
    elif rc != 0: notes.append(f"{name} ended with status {rc} without a report of a memory error: " + " ".join(text[-300:].split()))
    elif cov: runs[tool] = runs.get(tool, 0) + 1
execs = sum(v for k, v in observed.items() if k.endswith(": executions"))
os.makedirs(f"{root}/evidence", exist_ok=True)
ev = {
    "property": "C19", "tier": tier, "seed": int(seed), "level": "exploration",
    "coverage": {
        "evaluations": execs, "distinct_nontrivial": distinct,
        "rule": "each execution drives the real writer (or decodes metadata) in a process instrumented for memory errors; distinct counts different resulting files",
        "observed": observed, "processes that ended cleanly, by tool": runs, "inconclusive": notes,
        "samples": [f"{k} = {v}" for k, v in list(observed.items())[:4]],
    },
    "assumptions": ["the precompiled Rust standard library itself is not instrumented", "Miri cannot interpret Zstandard, which AddressSanitizer, UndefinedBehaviorSanitizer and memcheck cover"],
    "violations": len(bad), "wall_s": float(wall),
}
json.dump(ev, open(f"{root}/evidence/C19.json", "w"), indent=1)
if bad:
    os.makedirs(f"{root}/replays", exist_ok=True)
    name, hit, text = bad[0]
    path = f"{root}/replays/C19-{name}.txt"
    i = max(0, min((m.start() for p, _ in MARKS for m in [re.search(p, text)] if m), default=0) - 2000)
    open(path, "w").write(f"property=C19\nseed={seed}\nrun={name}\ntier={tier}\nreported by {hit}\n\n{text[i:i + 20000]}\n")
    print(f"{name}: {hit}")
    print(f"VIOLATION property=C19 replay={path}")
    sys.exit(1)
for n in notes: print("inconclusive: " + n)
if not runs or not execs:
    print("C19: nothing was observed")
    sys.exit(2)
print(f"C19: no memory error in {execs} executions ({', '.join(f'{v} {k}' for k, v in runs.items())} processes), {wall} s")
