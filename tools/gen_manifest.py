#!/usr/bin/env python3
"""Writes MANIFEST.json (run by hand; the result is committed)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CLAIMED = ["C01","C02","C03","C04","C05","C06","C07","C08","C09","C10","C11","C12","C13","C14","C15","C16","C17","C18"]
EXTRA = {
 "C01": "A mismatch counts only if the request behaves as specified when it runs alone.",
 "C14": "A mismatch counts only if it disappears when the other engines are taken away.",
 "C15": "The race detector watches the simulated schedule (hand-overs are invisible to it; pools inside the standard library are made to recycle nothing, so that they hide no race); it sees executed accesses only.",
 "C18": "Built with the tag `extended`.",
 "C11": "Stalled requests resume only when nobody else can run; whoever waited for them is the victim.",
}
BASE = "Seeded search, not proof: every run is one exactly repeatable execution of the real code under a scheduler that owns interleaving, clock, disk, connection and log faults, compared request by request with a reference model. Trusted: the model and generator in sim/wsim, the instrumenter, the Go toolchain and standard library. Preemption at statement boundaries of the repository's code and at I/O seams."
NA = {
 "C20": "Pure function of a string (conversions of parameters, cookies and stored values): no schedule, clock, fault or other party for a simulator to vary. Isolation of those values is C01.",
 "C21": "Construction-time validation of a route table is a pure function of the program's declarations, before any request, I/O or concurrency exists; generating malformed tables would be input generation in simulator vocabulary.",
 "C22": "Fixed functions of one request's headers; nothing in it depends on interleaving, time, I/O or faults. (The values are still compared as observations in C01's runs.)",
 "C23": "A pure formatting function of its arguments; nothing to schedule or to fail. (That a cookie reaches the right client is C01 and C06.)",
}
checks = []
for p in CLAIMED:
    checks.append({
        "property": p,
        "quick_cmd": f"./check.sh {p}",
        "thorough_cmd": f"VERIF_TIER=thorough ./check.sh {p}",
        "evidence_file": f"evidence/{p}.json",
        "technique": "deterministic simulation with fault injection (seeded schedules and faults, reference model)" + (", race detector on simulated schedules" if p == "C15" else ""),
        "level": "exploration",
        "level_note": BASE + (" " + EXTRA[p] if p in EXTRA else ""),
    })
m = {
 "version": 1,
 "setup_cmd": "./check.sh selftest C01,C12",
 "checks": checks,
 "not_applicable": [{"property": k, "reason": v} for k, v in NA.items()],
 "notes": "No hooks were added to /repo: the checks instrument a copy of its working tree at build time (sim/cmd/instrument), so the shipped sources carry no guard. ./check.sh replay FILE runs a replay file again; known_findings.txt lists findings (all repaired).",
}
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1, ensure_ascii=False)
    f.write("\n")
