#!/usr/bin/env python3
"""catch.py [-s SEED] ID...: run the check of each planted bug's property against a copy of /repo with the bug."""
import json, os, shutil, subprocess, sys, time
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [a for a in sys.argv[1:] if not a.startswith("-")] or sorted(os.listdir(HERE + "/seeded"))
for i in ids:
    d = HERE + "/seeded/" + i
    if not os.path.exists(d + "/meta.json"):
        continue
    prop = json.load(open(d + "/meta.json"))["property"]
    wt = "/tmp/catch-" + i
    shutil.rmtree(wt, ignore_errors=True)
    subprocess.check_call(["cp", "-a", "/repo", wt])
    p = subprocess.run(["git", "apply", d + "/patch.diff"], cwd=wt, capture_output=True, text=True)
    if p.returncode:
        print(i, "patch does not apply", p.stderr[:300]); continue
    t = time.time()
    p = subprocess.run([sys.executable, "check.py", prop], cwd=HERE, env=dict(os.environ, VERIF_REPO=wt), capture_output=True, text=True)
    n = p.stdout.count("VIOLATION property=" + prop)
    print("%-28s %s %-7s rc=%d violations=%d %.0fs" % (i, prop, "caught" if p.returncode == 1 and n else "MISSED", p.returncode, n, time.time() - t), flush=True)
    if p.returncode not in (0, 1):
        print(p.stdout[-800:])
    shutil.rmtree(wt, ignore_errors=True)
