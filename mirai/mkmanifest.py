#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the table of checks."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import checks

ids = [json.loads(l)["id"] for l in open(os.path.join(HERE, "..", "properties.jsonl"))]
TECH = {"C17": "compile-fail witnesses (type-level), each with a compiling twin",
        "C18": "MIR abstract interpretation of every type the trait solver gives the marker; compile-fail witnesses",
        "C23": "MIR effect lint over the whole libraries; compilation with unsafe code forbidden",
        "C08": "MIR dataflow: allocation sizes bounded on every path", "C26": "MIR dataflow: narrowing conversions bounded on every path"}
out = {"version": 1, "setup_cmd": "python3 mirai/build.py", "checks": [], "not_applicable": [],
       "notes": "Static analysis only: rustc's MIR of the current tree is abstractly interpreted (path by path, no solver, nothing is executed), linted, or the compiler is asked to reject a program. See DESIGN.md."}
for i in ids:
    if i in checks.CHECKS:
        c = checks.CHECKS[i]
        out["checks"].append({"property": i, "quick_cmd": "python3 mirai/run.py %s --tier quick" % i, "thorough_cmd": "python3 mirai/run.py %s --tier thorough" % i,
                              "technique": TECH.get(i, "MIR abstract interpretation (path-sensitive dataflow) against a table of specified outcomes"), "level": "other",
                              "level_note": "Static, sound for the paths it decides (undecided ones are counted and listed in the evidence). " + c.explain + ". Assumes: " + "; ".join(c.assumptions) + "."})
json.dump(out, open(os.path.join(HERE, "..", "MANIFEST.json"), "w"), indent=1)
