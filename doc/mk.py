#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from doc/properties_*.py."""
import importlib
import json
import os
import subprocess
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)

TECH = {
    "default": "runtime monitoring: generated workload on the real code, judged by a reference-model oracle",
    "C01": "runtime monitoring: online trace checker of the search against a model frontier",
    "C02": "runtime monitoring: online trace checker of the search against independent reachability",
    "C03": "runtime monitoring: operation histories judged step by step against a multiset model, conservation",
    "C04": "runtime monitoring: operation histories judged step by step against a map model",
    "C05": "runtime monitoring: operation histories judged step by step against a map model",
    "C20": "runtime monitoring: operation histories judged step by step against an ordered-map model",
    "C24": "runtime monitoring: runs under beams judged against all runs of a model automaton",
    "C25": "runtime monitoring: every step and run of the automaton is looked for in its approximation (simulation checker)",
    "C26": "runtime monitoring: differential, against the runs of the finest automaton, which C21-C23 judge by a model",
    "C28": "runtime monitoring: enumeration of results judged against exhaustive enumeration of derivations by a model",
    "C29": "runtime monitoring: pruned, stored and loaded runs judged against the derivations of a model and each other",
    "C30": "runtime monitoring: operation histories judged step by step against a map model, all versions kept alive",
    "C32": "runtime monitoring: the program run as a process, its output and status judged against model derivations",
    "C33": "sanitizers: the workloads run under Miri (Stacked Borrows) and AddressSanitizer, which decide",
}
NOTE_CORE = ("Holds on the executions observed (counts in the evidence). Trusts the model in the harness and the "
             "third-party crates; nothing is claimed about inputs outside the generator's bounds, which its rule states.")
NOTE_FULL = NOTE_CORE + (" Built against a stand-in for the unreachable crate integeriser (/verif/stub), "
                         "which is trusted to follow the contract of the original.")


def main():
    props = []
    for m in ("properties_core", "properties_full"):
        try:
            props += importlib.import_module(m).P
        except ImportError:
            pass
    with open(f"{VERIF}/properties.jsonl", "w") as f:
        for p in props:
            assert len(p["title"]) <= 80, p["title"]
            f.write(json.dumps(p, ensure_ascii=False) + "\n")
    na = {}
    try:
        na = importlib.import_module("properties_full").NOT_APPLICABLE
    except ImportError:
        pass
    hooks = [l.split()[0] for l in subprocess.run(
        ["git", "-C", "/repo", "log", "--format=%H %s"], stdout=subprocess.PIPE, text=True).stdout.splitlines()
        if l.split(" ", 1)[1].startswith("hook:")]
    manifest = {
        "version": 1,
        "setup_cmd": "python3 run.py setup",
        "hooks": {
            "guard": "cfg(rustomata_verif)",
            "enable": "RUSTFLAGS=\"--cfg rustomata_verif\" (set by /verif/run.py for all harness builds)",
            "source_commits": hooks,
        },
        "checks": [
            {
                "property": p["id"],
                "quick_cmd": f"python3 run.py check {p['id']} quick",
                "thorough_cmd": f"python3 run.py check {p['id']} thorough",
                "technique": TECH.get(p["id"], TECH["default"]),
                "level": "exploration",
                "level_note": NOTE_CORE if int(p["id"][1:]) <= 20 else NOTE_FULL,
            }
            for p in props if p["id"] not in na
        ],
        "not_applicable": [{"property": k, "reason": v} for k, v in sorted(na.items())],
        "notes": "Written by doc/mk.py. Verdicts: exit 0 held, 1 violated, 2 no answer.",
    }
    with open(f"{VERIF}/MANIFEST.json", "w") as f:
        json.dump(manifest, f, indent=1, ensure_ascii=False)
        f.write("\n")
    import jsonschema
    with open("/root/.vp/PROPERTIES.schema.json") as f:
        s = json.load(f)
    for p in props:
        jsonschema.validate(p, s)
    with open("/root/.vp/MANIFEST.schema.json") as f:
        jsonschema.validate(manifest, json.load(f))


main()
