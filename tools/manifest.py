"""Rewrite MANIFEST.json from the property modules."""

import ast
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTES = {
    "C01": "resource content after every mutator against a plain-data model; inputs and histories sampled",
    "C02": "several objects and outside writers on one resource; histories sampled",
    "C03": "results, errors and content against built-in dict and list; inputs sampled",
    "C04": "retained child handles against the model; histories sampled",
    "C05": "buffered against unbuffered behaviour, deferred writes, final files; histories and write faults sampled",
    "C06": "objects sharing one file in a common buffered state; histories sampled",
    "C07": "outside modification while buffered; histories and faults sampled",
    "C08": "for sampled saves the crash points (library lines, file operations, sampled write prefixes) are all tried; process kill only, no loss of the page cache",
    "C09": "preemption at line granularity; schedules sampled with PCT, bursts and random walks",
    "C10": "schedules, I/O faults and failing operations sampled; lock state inspected after every run",
    "C11": "entry points, positions and kinds of invalid values sampled; storage faults do not matter here",
    "C12": "values sampled; round trip through simulated storage",
    "C13": "preemption at line granularity; schedules and capacities sampled",
    "C14": "preemption at line granularity; results must fit an order that respects real time",
    "C15": "reported size against an independent account; histories sampled",
    "C16": "retained arguments and results mutated later; histories sampled",
    "C17": "reads, failing and no-change operations; the storage write log is inspected",
    "C18": "classes of all reachable nodes and attribute access against item access; histories sampled",
    "C19": "fresh process against warmed-up process for sampled orders of types",
}


def main():
    checks = []
    for pid, note in sorted(NOTES.items()):
        path = os.path.join(HERE, "sim", "props", pid.lower() + ".py")
        if not os.path.exists(path):
            continue
        level = None
        for n in ast.parse(open(path).read()).body:
            if isinstance(n, ast.Assign) and getattr(n.targets[0], "id", "") == "LEVEL":
                level = n.value.value
        checks.append({
            "property": pid,
            "quick_cmd": f"bash check.sh {pid}",
            "thorough_cmd": f"VERIF_TIER=thorough bash check.sh {pid}",
            "evidence_file": f"evidence/{pid}.json",
            "technique": "deterministic simulation with fault injection",
            "level": level,
            "level_note": note,
        })
    m = {
        "version": 1,
        "setup_cmd": "bash setup.sh",
        "checks": checks,
        "not_applicable": [],
        "notes": "No hooks in /repo: line events, threading locks, open/os functions and the "
                 "store objects are the seams. A violation prints its seed and writes a minimised "
                 "replay file; bash check.sh --replay FILE runs it again.",
    }
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
