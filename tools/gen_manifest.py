#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, pathlib
here = pathlib.Path(__file__).resolve().parent.parent
CHECKS = {
 "C01": ("exploration", "every delivered line, stream end and string is compared with an independent layout model"),
 "C02": ("exploration", "every opened focus or refusal is compared with an independent layout model"),
 "C03": ("exploration", "every styled character and reported width is compared with an independent layout model, styles being a free monoid"),
 "C04": ("exploration", "every print, string and display of an interleaved, nested or multi-threaded run is compared with the same one done alone"),
 "C05": ("fault_enumeration", "for each sampled script, every document access is made the failing one, once"),
 "C06": ("exploration", "lines delivered after failures are compared with an independent layout model"),
 "C07": ("exploration", "every call a document receives is checked against its precondition as it arrives"),
 "C08": ("exploration", "far-away nodes are down or practically infinite while lines are pulled; accesses, internal steps and allocations are held to a budget"),
 "C09": ("exploration", "any panic, crash, hang or exhausted step budget is a violation, under edits between any two accesses and in extreme documents, lines, windows and splits; what is printed is compared with an independent layout model where it has one"),
 "C10": ("exploration", "every drawing call is checked for bounds, ownership, double drawing and completeness"),
 "C11": ("exploration", "every frame is compared cell by cell with an independent composition model"),
 "C12": ("fault_enumeration", "for each sampled scene, every window call and document access is made the failing one, once"),
 "C13": ("exploration", "ids are compared with each thread's own count, separator marks with the branch's content, printed text is read back by an independent parser, and its styles with an independent combination"),
 "C14": ("exploration", "what is read back from a faulty simulated disk is compared with what was stored, validation with an independent statement of the flaws, and prints with an independent layout model"),
}
NA = {
 "N01": "a pure function of its arguments: no schedule, fault, time or I/O for a simulation to control (C09 and C11 exercise it through simulated windows)",
 "N02": "constructors and operators are pure functions: no schedule, fault, time or I/O to simulate",
 "N04": "a table lookup in the unicode-width dependency: no schedule, fault, time or I/O to simulate",
}
m = {
 "version": 1,
 "setup_cmd": "./run.sh",
 "hooks": {"guard": "none: the crate's own seams (PrettyDoc, PrettyWindow, get_content, and the span! markers of its profile feature) are used; no hook was added to /repo",
           "enable": "run.sh builds /repo with features serialization and profile; the profile dependency is replaced by sim/vendor/no-nonsense-flamegraphs",
           "source_commits": []},
 "checks": [],
 "not_applicable": [{"property": k, "reason": v} for k, v in NA.items()],
 "notes": "Genuine defects found are repaired by fix: commits in /repo, listed in KNOWN_FINDINGS.txt.",
}
for k, (level, note) in CHECKS.items():
    m["checks"].append({
        "property": k,
        "quick_cmd": f"./run.sh check {k}",
        "thorough_cmd": f"./run.sh check {k} --tier thorough",
        "technique": "deterministic simulation with fault injection, seeded search",
        "level": level,
        "level_note": note + ". Sampled: a clean run is evidence, not proof. Trusts the simulator's own model and stubs; the crate itself is the real code, built from /repo.",
    })
(here / "MANIFEST.json").write_text(json.dumps(m, indent=1) + "\n")
