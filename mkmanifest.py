#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl."""
import json, os
here = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
NA = {}
EXTRA = {
    "C05": " The tree below `current` is compared with the source's revisions after every mutating system call.",
    "C09": " Two to four processes on one installation, scheduled at every system call by the seeded scheduler.",
    "C13": " Real validator of krill-sync and rpki on signed fixtures (valid for one day of simulated time), with seven kinds of broken signed revisions.",
    "C17": " Two to three installations with independent schedules and faults, compared pairwise.",
    "C19": " Power loss keeps an arbitrary admissible part of what was not flushed (see DESIGN.md for the disk model).",
}
checks = []
for p in props:
    i = p["id"]
    if i in NA:
        continue
    checks.append({
        "property": i,
        "quick_cmd": f"./check.sh {i} quick",
        "thorough_cmd": f"./check.sh {i} thorough",
        "evidence_file": f"evidence/{i}.json",
        "technique": "deterministic simulation with fault injection: seeded search over histories, schedules and faults of the real program on a simulated machine",
        "level": "exploration",
        "level_note": "Seeded random search, not exhaustive: the real krill-sync binary code (main to exit, release code path, unmodified) runs on a simulated file system, clock, network, process table and upstream server; every system call boundary is an observation and fault point; violations come with a minimised replay file. Trusts the simulated machine and reference model." + EXTRA.get(i, ""),
    })
m = {
    "version": 1,
    "setup_cmd": "cd sim && CARGO_TARGET_DIR=/verif/target cargo build --offline --locked",
    "hooks": {"guard": "none", "enable": "No hooks in /repo: the simulator serves the C library symbols the program links against, and replaces the reqwest crate through [patch.crates-io] in /verif/sim/Cargo.toml.", "source_commits": []},
    "checks": checks,
    "not_applicable": [{"property": k, "reason": v} for k, v in NA.items()],
    "notes": "All checks share one simulator (sim/). ./replay.sh FILE reproduces a violation. known_findings.json lists repaired defects.",
}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
