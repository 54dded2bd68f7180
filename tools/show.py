#!/usr/bin/env python3
"""show.py FILE...: print replay files readably."""
import json, sys
def txt(x):
    if isinstance(x, list) and x and all(isinstance(i, int) for i in x):
        try: return "".join(map(chr, x))
        except ValueError: return x
    if isinstance(x, list): return [txt(i) for i in x]
    if isinstance(x, dict):
        return {k: txt(v) for k, v in x.items() if k != "rx" or "src" not in x}
    return x
for f in sys.argv[1:]:
    d = json.load(open(f)); p = d["payload"]
    print("==", d["what"])
    t = p.get("trace", {})
    print(" sh", t.get("sh"), "idiv", t.get("idiv"))
    for k in ("heap", "refs", "doc"):
        if t.get(k): print(" ", k, json.dumps(txt(t[k]), ensure_ascii=False)[:2500])
    for e in t.get("ev", [])[: p.get("position", 1) - 1]:
        if e.get("e") != "val": print("   then", json.dumps(txt(e), ensure_ascii=False)[:600])
    print("  STEP", json.dumps(txt(p.get("step")), ensure_ascii=False)[:2500])
