#!/usr/bin/env python3
"""writes MANIFEST.json"""
import json, os, re, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
from vf import checks
TRUST = "Trusts TLC, the Go driver (value construction and reading back through reflection) and the encoding of Go values described in DESIGN.md."
NOTE = {
 "C01": "TLA+ state machine of a string constraint; every configuration history up to a bound explored by TLC and replayed, plus random deep ones; verdicts of the real code are decided by TLC.",
 "C02": "As C01 for number and integer constraints; numbers are exact multiples of a power of two per behaviour.",
 "C03": "As C01 for trees of combinators and elementary constraints.",
 "C04": "As C01 for array constraints.",
 "C05": "As C01 for object constraints on maps; map iteration order varies by itself from call to call.",
 "C06": "As C05, comparing also the input before and after each validation with what the specification computes.",
 "C07": "As C05 with struct types built by reflection; the specification maps a struct to its properties.",
 "C08": "TLA+ machine of a Maybe value; all operation histories up to a bound by TLC, replayed, plus random histories; texts are judged by a JSON grammar in TLA+.",
 "C09": "TLA+ machine of reference maps and sticky references; all histories up to a bound by TLC, replayed, plus random ones.",
 "C10": "TLA+ semantics of schemas (Sat) and a compilation to constraints, checked to agree; random and enumerated schemas built by the real builder and validated values judged by TLC.",
 "C11": "As C10 with JSON pointers resolved in the document and loop detection specified in TLA+.",
 "C12": "The generated code is compiled and run; verdicts and defaults of the rebuilt validators are judged by the specification of the original.",
 "C13": "TLA+ machine of a generation writing to a faulty writer; recorded runs (repeats, permutations, other processes, failing and short writers at every byte) are validated by TLC.",
 "C14": "TLA+ machine of the concurrent operations; recorded concurrent histories of a race-enabled build are checked against it by TLC.",
 "C15": "TLA+ machine with hostile values and interleaved configuration; any panic, hang or changed verdict is a step the specification does not allow.",
 "C16": "TLA+ machine of one run of the command; real runs with faults injected into input, output and arguments are validated by TLC.",
 "C17": "TLA+ machine of the server; recorded request sequences, sequential and concurrent, are validated by TLC.",
 "C18": "TLA+ machine of builders; repeated builds on the same and other builders are validated by TLC.",
 "C19": "Object semantics over property methods in TLA+; every combination of methods and answers in a small scope plus generated ones are replayed and validated by TLC.",
 "C20": "TLA+ machine of configuration and query calls on constraints, shared maps and validators; all histories up to a bound by TLC, replayed, plus random ones.",
 "C21": "The traces of C01-C11 recorded from a build with the tracing tag and validated by TLC against the same specification.",
 "C22": "The generators are run from the working tree, their output compiled, and traces recorded from it validated by TLC against the Maybe, struct and schema specifications.",
}
TECH = "TLA+ specification model-checked with TLC; behaviours generated from it replayed on the real code, and recorded traces of the real code validated against it"
props = [json.loads(l)["id"] for l in open(HERE + "/properties.jsonl")]
doc = {"version": 1, "setup_cmd": "true",
       "checks": [{"property": p, "quick_cmd": "python3 check.py %s" % p, "thorough_cmd": "VERIF_TIER=thorough python3 check.py %s thorough" % p,
                   "evidence_file": "evidence/%s.json" % p, "technique": TECH, "level": "model_checking", "level_note": NOTE[p] + " " + TRUST}
                  for p in props if p in checks.CHECKS],
       "not_applicable": [{"property": p, "reason": "not built yet"} for p in props if p not in checks.CHECKS],
       "notes": "No hooks in /repo: only public API, the command line and HTTP are used."}
json.dump(doc, open(HERE + "/MANIFEST.json", "w"), indent=1)
