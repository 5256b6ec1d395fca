#!/usr/bin/env python3
"""Writes MANIFEST.json for the properties named on the command line (default: all)."""
import json, os, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
known = [json.loads(l)["id"] for l in open(os.path.join(here, "properties.jsonl"))]
ids = sys.argv[1:] or known
unknown = [i for i in ids if i not in known]
if unknown:
    sys.exit("no such property: " + ", ".join(unknown))
TECH = {
    "C08": "property-based testing: generated doubles against an exact-arithmetic shortest-decimal oracle, plus metamorphic monotonicity and sign relations",
    "C11": "property-based testing: metamorphic width law over generated conversions",
    "C12": "grammar-based fuzzing of format strings against an independent grammar",
    "C13": "property-based testing: generated programs of pieces, composition relation and model",
    "C16": "stateful property-based testing: generated call histories against fresh formatters",
    "C17": "property-based testing over generated thread schedules (harness-owned interleavings) plus stress",
    "C20": "property-based testing with a fault injected at every write of each generated case",
    "C24": "stateful property-based testing: generated rope operation sequences against a String model",
    "C25": "property-based testing under generated default locales",
    "C26": "differential property-based testing across the installed Java runtimes",
    "C29": "property-based testing: generated inputs against a bound on allocated memory and a reference model",
    "C30": "property-based testing: generated programs over objects that log their evaluation",
    "C31": "stateful property-based testing: generated changes of mutable arguments between and during calls against a reference model",
    "C32": "stateful property-based testing: generated call histories with reachability of every object checked by garbage collection",
    "C33": "property-based testing: generated workloads at two sizes, with a bound on the growth of CPU time",
    "C34": "property-based testing: generated faulty formats against a scanner of its own and against the same fault in other surroundings",
    "C35": "property-based testing: generated foreign argument lists and arguments against the model",
    "C36": "property-based testing: generated context histories and conversion parts against the model",
    "C37": "property-based testing: state of arguments and surroundings compared before and after generated calls",
    "C28": "property-based testing: metamorphic upper/lower-case relation",
}
checks = []
for i in ids:
    checks.append({
        "property": i,
        "quick_cmd": "bash run.sh " + i,
        "thorough_cmd": "VERIF_TIER=thorough bash run.sh " + i,
        "evidence_file": "evidence/%s.json" % i,
        "technique": TECH.get(i, "property-based testing: generated inputs against an independent reference model, with shrinking"),
        "level": "fault_enumeration" if i == "C20" else "exploration",
        "level_note": ("every write of each generated case is made to fail once; the cases themselves are sampled"
                       if i == "C20" else "a fixed number of generated cases per seed; no exhaustiveness claimed"),
    })
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": []}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
