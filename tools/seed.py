#!/usr/bin/env python3
"""seed.py FILE...: make /verif/seeded/<id> from a description, confirming it in a scratch copy.
A description is a python file: ID, PROPERTY, NEEDS, BREAKS, EDITS=[(file, old, new)], DEMO (go source of main.go), RACE=False"""
import json, os, re, shutil, subprocess, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

def sh(cmd, cwd, timeout=900):
    p = subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True, timeout=timeout)
    return p.returncode, p.stdout + p.stderr

PKGS = {p.split("/")[-1]: p for p in ("fmt os regexp strings bytes errors reflect sort sync time math io strconv encoding/json net/http net/http/httptest os/exec path/filepath runtime"
        " github.com/lestrrat-go/jsval github.com/lestrrat-go/jsval/builder github.com/lestrrat-go/jsval/server").split()}
PKGS["schema"] = "github.com/lestrrat-go/jsschema"

def source(d):
    if d.get("BODY") is None:
        return d.get("DEMO")
    code = d.get("TOP", "") + d["BODY"]
    imps = {PKGS[p] for p in PKGS if re.search(r"\b%s\.[A-Z]" % p, code)} | {"fmt", "os"}
    return ("package main\n\nimport (\n" + "".join("\t%s%s\n" % ("schema " if "jsschema" in i else "", json.dumps(i)) for i in sorted(imps)) + ")\n\n" + d.get("TOP", "") +
            "\nfunc must(ok bool, msg string) {\n\tif !ok {\n\t\tfmt.Println(msg)\n\t\tos.Exit(1)\n\t}\n}\n\nfunc main() {\n" + d["BODY"] + "\n}\n")

def original(wt, diff):
    """how many of the removed lines are lines of the repository as it came"""
    n = m = 0
    cur, line = None, 0
    for l in diff.splitlines():
        if l.startswith("--- "):
            cur = l[6:]
        elif l.startswith("@@"):
            line = int(re.match(r"@@ -(\d+)", l).group(1))
        elif l.startswith("-"):
            rc, o = sh("git blame -s -L %d,%d HEAD -- %s" % (line, line, cur), wt)
            h = o.split()[0].lstrip("^")
            n, m = n + BASE.startswith(h[:7]), m + 1
            line += 1
        elif not l.startswith("+"):
            line += 1
    return n, m

BASE = subprocess.run(["git", "-C", "/repo", "rev-parse", "c3bd0c7"], capture_output=True, text=True).stdout.strip()

def load(f):
    g = {"RACE": False}
    exec(open(f).read(), g)
    if "SEEDS" not in g:
        return [g]
    return [dict({"RACE": False}, ID=x[0], PROPERTY=x[1], NEEDS=x[2], BREAKS=x[3], EDITS=x[4], BODY=x[5], **(x[6] if len(x) > 6 else {})) for x in map(list, g["SEEDS"])]

def one(d):
    wt = "/tmp/seed-" + d["ID"]
    shutil.rmtree(wt, ignore_errors=True)
    subprocess.check_call(["cp", "-a", "/repo", wt])
    out = os.path.join(HERE, "seeded", d["ID"])
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    try:
        demo = open(HERE + "/tools/demo.sh").read().replace("RACEFLAG ", ("-race " if d["RACE"] else "") + ("-tags " + d["TAGS"] + " " if d.get("TAGS") else ""))
        if d.get("SH"):
            demo = d["SH"]
        open(out + "/demo.sh", "w").write(demo)
        os.chmod(out + "/demo.sh", 0o755)
        if source(d):
            open(out + "/main.go", "w").write(source(d))
            sh("gofmt -w " + out + "/main.go", wt)
        rc, o = sh("bash %s/demo.sh" % out, wt)
        if rc != 0:
            print(d["ID"], "DEMO FAILS ON CLEAN TREE", rc, o[-1500:]); return False
        for fn, old, new in d["EDITS"]:
            p = os.path.join(wt, fn)
            s = open(p).read()
            if s.count(old) != 1:
                print(d["ID"], "EDIT matches %d times in %s: %r" % (s.count(old), fn, old)); return False
            open(p, "w").write(s.replace(old, new))
        rc, diff = sh("git diff", wt)
        open(out + "/patch.diff", "w").write(diff)
        rc, o = sh("go build ./... && go test -vet=off -v ./... > test.out 2>&1; grep -c '^--- FAIL\\|^    --- FAIL' test.out; grep 'FAIL' test.out | head", wt)
        txt = open(wt + "/test.out").read() if os.path.exists(wt + "/test.out") else ""
        if re.search(r"^(--- FAIL|\s+--- FAIL|FAIL|panic)", txt, re.M) or txt.count("--- PASS") < 22:
            print(d["ID"], "TESTS FAIL", o[-800:], txt[-500:]); return False
        rc, o = sh("bash %s/demo.sh" % out, wt)
        if rc == 0:
            print(d["ID"], "DEMO PASSES WITH THE PATCH"); return False
        if rc == 3:
            print(d["ID"], "DEMO DOES NOT BUILD WITH PATCH", o[-800:]); return False
        json.dump({"property": d["PROPERTY"], "needs": d["NEEDS"], "what_it_breaks": d["BREAKS"]}, open(out + "/meta.json", "w"), indent=1)
        n, m = original(wt, diff)
        print(d["ID"], "ok (%d/%d original lines):" % (n, m) if n else "ok BUT NO ORIGINAL LINE CHANGED:", o.strip()[-200:])
        return True
    finally:
        shutil.rmtree(wt, ignore_errors=True)
        if not os.path.exists(out + "/meta.json"):
            shutil.rmtree(out, ignore_errors=True)

import concurrent.futures
only = [a[1:] for a in sys.argv[1:] if a.startswith("@")]
todo = [d for f in sys.argv[1:] if not f.startswith("@") for d in load(f)]
with concurrent.futures.ThreadPoolExecutor(4) as ex:
    list(ex.map(one, [d for d in todo if not only or d["ID"] in only]))
