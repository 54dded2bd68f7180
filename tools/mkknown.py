"""writes known-findings.txt (fixed entries from the list below; known ones name a case file under known/)"""
import os, subprocess
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FIXED = [l.split("|") for l in open(os.path.join(HERE, "tools", "fixed.list")).read().splitlines() if l]
KNOWN = [("C06", "known/c06-leak.json", "an alternative of Any that is rejected after it filled in a default leaves that default in the input (observable: {\"z\":1} validated against Any(Object{a default}, Object{anything}) comes back with a)"),
         ("C15", "known/c15-leak-order.json", "same defect: which properties of a rejected alternative were visited first differs from run to run, so the leaked default, and with it the verdict of a later alternative, does too"),
         ("C16", "known/c16-escape.json", "a pointer given with -p that contains the escapes ~0 or ~1 is not resolved (the pointer library the command uses does not decode them): -p /definitions/a~1b fails although the document has a definition named a/b")]
out = ["# genuine defects: `known` ones are still there (see DESIGN.md), `fixed` ones were repaired in /repo and suppress nothing"]
for p, f, w in KNOWN:
    out.append("known: property=%s case=%s %s" % (p, f, w))
for c, ps, w in FIXED:
    for p in ps.split("/"):
        out.append("fixed: property=%s %s %s" % (p, c, w))
open(os.path.join(HERE, "known-findings.txt"), "w").write("\n".join(out) + "\n")
