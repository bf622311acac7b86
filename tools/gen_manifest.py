#!/usr/bin/env python3
# Writes /verif/MANIFEST.json from properties.jsonl.
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(root + "/properties.jsonl")]
NA = {
    "C30": "a matcher's verdict is a pure function of pattern and argument; no schedule, time, I/O, fault or multi-party behaviour is involved, so there is nothing for a simulator to decide (input generation would be property based testing, another technique). The simulator uses a few of the matchers (any, equality, relational, predicates) as part of the programs of C08 and C14.",
    "C31": "printing is a pure function of the printed value; nothing in it depends on schedules, time, I/O or faults. Only the failure of a printer inside of a call (C05) is decided by simulation.",
    "C32": "evaluated by the compiler; there is no execution to simulate.",
    "C33": "evaluated by the compiler; there is no execution to simulate.",
    "C34": "a pure function of two integers, evaluated once per expectation (also at compile time); no schedule, time, I/O or fault is involved. What happens around a refused configuration is decided by C19.",
}
NOTES = {
    "C01": "Seeded search over interleavings down to single memory accesses of 2-4 virtual threads, including failing allocations and the allocation-failure fail-stop; oracle: linearisability against an executable reference model plus a happens-before race check and a checked heap.",
    "C02": "Seeded search over schedules which destroy an expectation inside of its own call, from its own actions or from another thread; oracle: reference model plus checked heap (use after free, double free, destroyed locks) and race check.",
    "C03": "Seeded search over re-entrant and waiting actions; progress is a bounded number of scheduling points, a blocked simulation is reported as deadlock.",
    "C20": "Every allocation of an operation is a possible failure point; the failing one is drawn from the seed. Termination directly caused by an allocation failure is accepted (the statement allows it).",
    "C18": "As for the others; the known finding (see known_findings.txt) is executed as an explicit program and excluded from generation.",
}
checks, na = [], []
for p in props:
    if p["id"] in NA:
        na.append(dict(property=p["id"], reason=NA[p["id"]]))
        continue
    checks.append(dict(
        property=p["id"],
        quick_cmd=f"bash run.sh check {p['id']}",
        thorough_cmd=f"bash run.sh check {p['id']} thorough",
        evidence_file=f"evidence/{p['id']}.json",
        technique="deterministic simulation with fault injection (seeded search over programs, schedules and faults; recorded history checked against a reference model)",
        level="exploration",
        level_note=NOTES.get(p["id"], "Seeded search over generated histories (nested and interleaved user operations, injected exceptions) with a refinement check of the recorded history against an executable reference model.")
        + " Not exhaustive: only the sampled programs and schedules are decided. Trusted: the simulator runtime, the reference model, g++ 13 and its -fsanitize=thread instrumentation.",
    ))
m = dict(version=1, setup_cmd="bash run.sh build", checks=checks, not_applicable=na,
         notes="No hooks in /repo: the library's only nondeterminism (thread scheduling at locks and memory accesses, allocation failures, user code, reporters) is reached through link-time and template seams, see DESIGN.md. Replay a violation with: bash run.sh --replay <file>.")
json.dump(m, open(root + "/MANIFEST.json", "w"), indent=1)
open(root + "/MANIFEST.json", "a").write("\n")
