"""writes MANIFEST.json"""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"

TECH = {
    "C01": "deterministic simulation of loading: seeded I/O errors, short reads, interrupts and failed allocations at any instruction, retries; every loaded part compared with frozen published data",
    "C02": "deterministic simulation: seeded interleavings of readers and file replacements, short reads, I/O errors; refinement against a reference parser and the version history",
    "C03": "deterministic simulation: concurrent, failing and interrupted operations of all kinds; database compared with frozen published data during and after every run",
    "C04": "deterministic simulation: interleaved and interrupted algebra on shared objects; refinement against immutable reference sums",
    "C05": "deterministic simulation: interleaved evaluation of shared objects at bytecode granularity; refinement against reference formulas, history audit of inputs and results",
    "C06": "deterministic simulation: interleaved grid requests with injected solver failures; grid invariants and reference distribution",
    "C07": "deterministic simulation: interleaved coverage requests, solver failures, warnings shown or raised; warning history checked for exactly-once per request",
    "C08": "deterministic simulation: failing, nested and shared integrands under seeded schedules; reference sums and exception identity",
    "C09": "deterministic simulation: interrupts, failed allocations, I/O and callback failures at seeded instructions; comparison with the fault-free twin run",
    "C10": "deterministic simulation: injected total and partial solver failures under seeded schedules; reference quantile function and documented fallback",
    "C11": "deterministic simulation: simulated file table with failing opens/reads/conversions and interrupts; no file open after any operation, no write ever",
    "C12": "deterministic simulation: interleaved and interrupted thermal calculations; entry-by-entry reference integrals",
    "C13": "deterministic simulation: call-counting, failing and re-entrant conversions under seeded schedules; reference parser times conversion",
    "C14": "deterministic simulation: process-state snapshots around runs, same schedule repeated with another clock and other random seeds",
    "C15": "deterministic simulation of whole calculations on shared objects with faults; conservation and known integrals",
    "C16": "deterministic simulation: interleaved building, using and extending of nuclei; refinement against a value-semantics model",
    "C17": "deterministic simulation: operations completed, failed or interrupted at seeded instructions, all references dropped; weak references must be dead, reachable size must not grow",
    "C18": "deterministic simulation: each operation of a seeded concurrent, faulted history is compared bit for bit with its execution alone in a fresh process",
}
NOTE = ("Seeded search, not exhaustive: holds on every schedule, fault sequence and history explored (counts in the evidence file). "
        "Real library, numpy and scipy code; scheduling, file reads, clock, locks, solver failures and interrupts are simulated. "
        "Trusts the reference model in dst/refmodel.py and the frozen data in dst/golden.json; switches happen between bytecode instructions, not inside numpy calls.")
NA = {
    "N01": "pure function of its arguments: no schedule, clock, I/O, fault or history can influence it, so simulation would only be input sampling of a formula",
    "N02": "approximation quality of a closed formula: a statement about real analysis over parameters, without any concurrency, time, I/O or history",
    "N03": "pure arithmetic identity of two arguments; nothing for a simulator to control",
}


def main():
    checks = []
    for p in sorted(TECH):
        cmd = "%s -m dst.check %s" % (PY, p)
        checks.append(dict(property=p, quick_cmd=cmd, thorough_cmd=cmd, evidence_file="evidence/%s.json" % p, technique=TECH[p], level="exploration", level_note=NOTE))
    m = dict(
        version=1, setup_cmd="%s -c 'import numpy, scipy, sys; assert sys.version_info >= (3, 12)'" % PY,
        hooks=dict(guard="none", enable="no hooks in /repo: the checks load the working tree through the simulator's own module loader", source_commits=[]),
        checks=checks, not_applicable=[dict(property=p, reason=r) for p, r in NA.items()],
        notes="Replay a violation with: %s -m dst.replay replays/<file>.json" % PY,
    )
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
