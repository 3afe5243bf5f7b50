#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(root, "properties.jsonl"))]
TECH = {
    "P01": "property-based testing: grammar-aware and noise text generation, panic/crash oracle, shrinking",
    "P02": "property-based testing: differential against a reference parser and evaluator",
    "P03": "property-based testing: metamorphic (implicit against explicit product) plus reference evaluator",
    "P04": "property-based testing: differential against unoptimised reference evaluation",
    "P05": "property-based testing: substitution sequences, differential against reference evaluation and between the four forms",
    "P06": "property-based testing: histories with every-one-missing probes against the reported set",
    "P07": "property-based testing: generated bindings against evaluation and set difference",
    "P08": "property-based testing: stateful histories and threads against a fresh-parser baseline",
    "P09": "property-based testing: display/parse round trip through a reference parser",
    "P10": "property-based testing: exact big-integer arithmetic oracle",
    "P11": "property-based testing: metamorphic relations on layout and parentheses",
    "P12": "property-based testing: differential against independently written functions",
    "P13": "property-based testing: differential against a reference product, relations for gamma",
    "P14": "stateful property-based testing: context histories against a symbol-table model",
    "P15": "property-based testing: generated arities and argument lists, recording functions",
    "P16": "property-based testing: differential between restricted and unrestricted parser",
    "P17": "property-based testing: chains of bound expressions against substitution in a reference",
    "P18": "property-based testing: differential of error positions against a reference parser",
    "P19": "property-based testing: algebraic laws and a structural reference over related expressions",
    "P20": "stateful property-based testing with fault injection under a checking allocator",
    "P21": "property-based testing: generated sessions piped to the real program, library as oracle",
    "P22": "property-based testing: differential between the eight builds",
    "P23": "property-based testing: recorded side effects against the calls of a reference evaluation",
    "P24": "property-based testing: generated texts and repetitions under a counting allocator, balance and growth bounds",
    "P25": "stateful property-based testing: contexts by different histories and single edits, comparisons against a structural model",
}
NOTE = ("Random search: a violation found is real and comes shrunk; silence means none was found in the "
        "cases counted in the evidence. Trusts the reference implementation in harness/, proptest, "
        "cargo and the two toolchains. Bounds: see DESIGN.md.")
m = {
    "version": 1,
    "setup_cmd": "./setup.sh",
    "checks": [
        {
            "property": p["id"],
            "quick_cmd": "./check.py %s --tier quick" % p["id"],
            "thorough_cmd": "./check.py %s --tier thorough" % p["id"],
            "technique": TECH[p["id"]],
            "level": "exploration",
            "level_note": NOTE,
        }
        for p in props
    ],
    "not_applicable": [],
    "notes": "No hooks: everything is observed through the public API and the repl program.",
}
with open(os.path.join(root, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
