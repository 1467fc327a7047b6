#!/usr/bin/env python3
"""Source of /verif/MANIFEST.json."""
import json, os
here = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
PURE = {
 "C23": "A pure function of a sample sequence handed to one caller: no schedule, fault, time or randomness to simulate (what the library itself records, population statistics, is decided under C09).",
 "C24": "A pure function of three numbers: nothing to simulate (its use for rates and sizes is decided under C05 and C15).",
 "C26": "A pure comparison of two values that no run of the library uses: nothing to simulate.",
}
TECH = {
 "C25": "deterministic simulation: seeded hash keys and schedules, results checked against set definitions",
 "C27": "deterministic simulation: seeded entropy and schedules under the bundled model, reconstruction of every generation, bounded liveness",
 "C28": "deterministic simulation: conservation of live individuals and generators under injected panics, refusals and schedules",
 "C29": "deterministic simulation: callbacks that wait for each other under searched schedules; deadlock detection",
 "C30": "deterministic simulation: protocol automaton over all overridable steps under injected panics and histories of runs",
 "C31": "deterministic simulation: chosen random streams (also extreme draws) on simulated workers, bounds exactly, frequencies statistically",
 "C11": "deterministic simulation: differential runs (reused against fresh object) under injected crashes, refusals and stops",
 "C14": "deterministic simulation: differential runs under different hash seeds, entropy, clocks and schedules",
 "C10": "deterministic simulation: panics injected at arbitrary callbacks under searched schedules, then further runs",
 "C12": "deterministic simulation: schedule search with starvation and nested parallelism; deadlock, livelock and step bounds",
 "C16": "deterministic simulation: per-breeding application checked under searched schedules, frequency bounds over long simulated runs",
 "C17": "deterministic simulation: selector protocol and distribution under concurrent searched schedules and extreme random draws",
}
NOTE = ("Seeded sampling, not proof: holds on every simulated run of the reported seed. The real rusty_genes, rayon, object-pool and rand run; "
        "threads, futexes, clocks, entropy and user callbacks are the simulator's. Sequentially consistent memory; preemption at basic-block edges of "
        "rusty_genes, at callbacks and at blocking operations. ")
EXTRA = {
 "C11": "One worker, as the property requires.", "C14": "One worker, as the property requires.",
 "C16": "Intermediate rates are decided by a 6.5-sigma bound over long runs.",
 "C17": "Distributions are decided by a statistical bound over repeated selections, membership and protocol exactly.",
}
checks = []
for p in props:
    i = p["id"]
    if i in PURE:
        continue
    checks.append(dict(property=i, quick_cmd=f"bash bin/check.sh {i} quick", thorough_cmd=f"bash bin/check.sh {i} thorough",
        evidence_file=f"evidence/{i}.json",
        technique=TECH.get(i, "deterministic simulation: seeded search over schedules and injected faults, reference-model oracles"),
        level="exploration", level_note=(NOTE + EXTRA.get(i, "")).strip()))
m = dict(version=1, setup_cmd="bash bin/build.sh", checks=checks,
    not_applicable=[dict(property=k, reason=v) for k, v in PURE.items()],
    notes="No hooks in /repo: the simulator's seam is the process/OS boundary (interposed futex, thread, clock and entropy calls) plus compiler-inserted basic-block guards, added only in /verif's build. Replay: bash bin/replay.sh FILE.")
open(os.path.join(here, "MANIFEST.json"), "w").write(json.dumps(m, indent=1) + "\n")
