#!/usr/bin/env python3
"""orig.py: planted bugs whose patch changes no line of the repository as it came (such a bug does not count)."""
import os, re, subprocess
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
base = subprocess.run(["git", "-C", "/repo", "rev-parse", "c3bd0c7"], capture_output=True, text=True).stdout.strip()
bl = {}
for i in sorted(os.listdir(H + "/seeded")):
    n = 0
    for l in open(H + "/seeded/%s/patch.diff" % i):
        if l.startswith("--- "):
            cur = l[6:].strip()
            if cur not in bl:
                o = subprocess.run(["git", "-C", "/repo", "blame", "-s", cur], capture_output=True, text=True).stdout
                bl[cur] = [x.split()[0].lstrip("^") for x in o.splitlines()]
        elif l.startswith("@@"):
            line = int(re.match(r"@@ -(\d+)", l).group(1))
        elif l.startswith("-"):
            n += base.startswith(bl[cur][line - 1][:7]); line += 1
        elif l.startswith(" "):
            line += 1
    if not n:
        print(i)
