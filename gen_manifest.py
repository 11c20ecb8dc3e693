#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl."""
import json, os
here = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
T = {
 "C01": "seeded schedule search over simulated threads, outcomes compared with isolated executions",
 "C02": "seeded search over call histories with address reuse, outcomes compared with isolated executions",
 "C03": "seeded injection of allocation failures and panicking conversions into call histories",
 "C04": "seeded injection of allocation failures at every allocation of sampled calls",
 "C05": "seeded schedule search with threads suspended for ever inside calls, bounded progress of the others",
 "C06": "seeded search over inputs that change, are switched by other threads, or re-enter the library",
 "C07": "seeded rounds of calls with injected failures, live heap compared between rounds",
 "C08": "seeded transmission faults against an independent check-digit rule",
 "C09": "seeded damage to printed symbols, read by an independent reference scanner",
 "C10": "seeded destruction of renderings, surviving scan lines read back",
 "C11": "seeded sink failures while formatting",
 "C13": "seeded chains of stations with typing, printing and scanning faults, read by an independent reference scanner",
 "C12": "simulated hostile clock, environment, entropy and I/O under seeded call histories",
}
NOTE = ("Search over seeded simulated runs of the real library code (no stub of barcoders); a clean result is evidence for the seeds run, not a proof. ")
EXTRA = {
 "C01": "Interleavings are sequentially consistent, at every basic block, load, store and allocation of library code; weak-memory effects and atomics' reordering are not modelled.",
 "C02": "Trusts that the same call alone in a fresh process is right about itself; histories up to 70,000 calls.",
 "C03": "Out of memory is simulated as an unwinding allocation error, which a program can survive; aborting instead is permitted.",
 "C04": "Every allocation made by library code and its dependencies can fail; an aborting process counts as failing as a whole.",
 "C05": "A thread may be suspended at any instrumented point; progress bound 60 million steps per call.",
 "C06": "Content changes between conversions and at any interleaving; not in the middle of the conversion's own borrow.",
 "C07": "36, then 288, then 2,880 rounds: a leak is a heap that throughout the last quarter is larger than it ever was in the first half; a cache that fills up within these rounds is not.",
 "C08": "Exhaustive over single-digit substitutions, neighbour swaps and single bit flips of each sampled number.",
 "C09": "The scanner is written from the published tables; wide guard bars two modules wide are within its tolerance; two Codabar deviations that the repository's tests record are known findings.",
 "C10": "GIF is judged with fully opaque or fully transparent colours, the only ones it can store.",
 "C11": "Every failure point of short texts, up to 40 evenly spread ones of long texts.",
 "C13": "Renderings of up to 60,000 units; the scanner is the one of C09, the rendering decoders are the image crate's and the harness's own.",
 "C12": "All libc entry points used for files, streams, environment, entropy and clocks are intercepted; a raw system-call instruction inside the library would not be.",
}
NA = {
 "C20": "A pure function of one argument: nothing in it depends on scheduling, time, I/O, faults or other parties, so there is nothing to simulate (partly covered by the readability half of C09).",
 "C21": "A pure function of one argument, without scheduling, time, I/O, faults or other parties (partly covered by the readability half of C09).",
 "C22": "A pure function of one argument, without scheduling, time, I/O, faults or other parties (partly covered by the readability half of C09).",
 "C23": "A pure predicate on one string; no nondeterminism to simulate (the check-digit part under transmission faults is C08).",
 "C24": "A pure function of digits and options; no nondeterminism to simulate (what survives damage is C10).",
 "C25": "Totality over input data is a matter of input generation or proof, not of schedules or faults.",
 "C26": "Equality of builds is a matter of comparing builds on inputs, not of schedules or faults.",
}
m = {
 "version": 1,
 "setup_cmd": "python3 check.py --build",
 "checks": [], "not_applicable": [],
 "notes": "No hooks in /repo are needed: the seams are the global allocator, libc entry points, std thread creation, the AsRef inputs and fmt sinks of the public API, and compiler instrumentation of basic blocks and memory accesses added by the build (sim/wrap.sh). A replay file is re-executed with: python3 check.py --replay FILE",
}
for p in props:
    i = p["id"]
    if i in NA:
        m["not_applicable"].append({"property": i, "reason": NA[i]})
    else:
        m["checks"].append({"property": i, "quick_cmd": f"python3 check.py {i}", "thorough_cmd": f"python3 check.py {i} --thorough", "evidence_file": f"evidence/{i}.json",
                            "technique": "deterministic simulation with fault injection: " + T[i], "level": "exploration", "level_note": NOTE + EXTRA[i]})
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
