"""C16: runs of the real command, in a scratch directory."""
import json, os, shutil, subprocess
from concurrent.futures import ThreadPoolExecutor
from .core import CheckError, ENV
from .gen import cp
from .schema import SGen, strip

NOTSCHEMA = ['{"type": 5}', '{"type": "nosuchtype"}', '{"properties": []}', '{"items": 3}', '{"type": ["string", 1]}',
             '{"additionalProperties": "x"}', '{"enum": "a"}', '{"definitions": [1]}', '{"pattern": "("}']
TRAILING = ["x", " {}", "{", "}", "]", ",", "\n{\"type\": \"string\"}", "\n\n1", " null", " // end", "\0", "\n---\n", " \"\""]
PREFIXES = ["R", "M", "V", "Validator", "My_", "P1", "x", "Été"]

def tokens_ok(path):
    return all(isinstance(t, int) or t != "" and not set(t) & set("~/") for t in path)

def raw(path):
    return "".join("/" + str(t) for t in path)

def scalars(x, path, out):
    """where something that is not an object is"""
    if isinstance(x, dict):
        for k, v in x.items():
            scalars(v, path + [k], out)
    else:
        out.append(path)
        if isinstance(x, list):
            for i, v in enumerate(x):
                if not isinstance(v, dict):
                    scalars(v, path + [i], out)
    return out

def document(r, refs=True):
    while True:
        g = SGen(r, default=r.random() < 0.2, refs=refs and r.random() < 0.7)
        doc = g.document(r.choice([1, 2, 2, 3]))
        if any(x.get("n") == cp("zz") for x in doc.get("definitions", [])):
            continue
        return g, doc

def make(r, q):
    """a request of the model on a real document"""
    g, doc = document(r)
    kinds = q["kinds"]
    if "badref" in kinds:
        doc["definitions"] = doc.get("definitions", []) + [{"n": cp("zz"), "s": {"ref": cp("#/definitions/nope")}}]
    text = g.text(doc)
    whole = json.loads(text)
    locs = []
    g.locations(doc, [], locs)
    locs = [p for p, _ in locs if p and tokens_ok(p)]
    flat = [p for p in scalars(whole, [], []) if tokens_ok(p)]
    ptrs, parts, paths = [], [], []
    for k in kinds:
        if k == "good" and locs:
            p = r.choice(locs)
            ptrs.append(raw(p))
            parts.append(cp(g.pointer(p)))
            paths.append(p)
        elif k == "good":
            ptrs.append("")
            parts.append(cp("#"))
            paths.append([])
        elif k == "badref":
            ptrs.append("/definitions/zz")
            parts.append(cp("#/definitions/zz"))
            paths.append(["definitions", "zz"])
        else:
            p = None
            if k == "notobject" and flat:
                p = r.choice(flat)
                ptrs.append(raw(p))
                parts.append(cp("#/nowhere at all"))
            else:
                ptrs.append({"malformed": r.choice(["definitions", "foo/bar", "x"])}.get(k, r.choice(["/nowhere9", "/definitions/nope9/x", "/properties/zzz9", "/anyOf/99"])))
                parts.append(cp("#/nowhere at all"))
            paths.append(None)
    prefix = r.choice(PREFIXES) if q["prefix"] is True else q["prefix"] or ""
    n = max(1, len(ptrs))
    return {"sh": g.sh, "idiv": g.idiv, "doc": strip(doc), "text": text, "args": q["args"], "input": q["input"], "out": q["out"], "was": q["was"], "fault": q["fault"],
            "parts": parts or [cp("#")], "ptrs": ptrs, "paths": paths, "prefix": cp(prefix), "vnames": [cp("%s%d" % (prefix, i)) if prefix else [] for i in range(n)],
            "pick": r.random(), "ev": []}

def execute(run, exe, c, code):
    """one run of the command; code is what the library generates (None if it does not)"""
    import random
    r = random.Random("%s-%s-%s" % (run.seed, c["id"], c["pick"]))
    d = os.path.join(run.dir, "cli", str(c["id"]))
    os.makedirs(d)
    try:
        text, src = c["text"], os.path.join(d, "in.json")
        i = c["input"]
        content = {"ok": text, "empty": r.choice(["", " ", "\n"]), "truncated": text.strip()[:r.randrange(1, len(text.strip()))], "array": "[" + text + "]",
                   "scalar": r.choice(["1", '"a"', "true"]), "notschema": r.choice(NOTSCHEMA),
                   "trailing": text + r.choice(TRAILING)}.get(i)
        if i == "dir":
            os.mkdir(src)
        elif i != "missing":
            open(src, "w").write(content)
        opt = lambda s, l, v: r.choice([["-" + s, v], ["--" + l, v], ["--" + l + "=" + v]]) if v else ["--" + l, v]
        args = [opt("s", "schema", src)]
        prefix = "".join(map(chr, c["prefix"]))
        if prefix:
            args.append(opt("P", "prefix", prefix))
        old = None
        dest = os.path.join(d, "out.go")
        wrap = []
        n = len((code or "x" * 300).encode())
        if c["out"] == "file":
            limit = False
            if c["was"] == "old" and c["fault"] == "open":
                os.mkdir(dest)
            elif c["was"] == "old":
                old = r.choice(["// old\n", "x" * (2 * n + 100), ""]).encode()
                open(dest, "wb").write(old)
                limit = c["fault"] == "write"
            elif c["fault"] == "open":
                dest = r.choice([os.path.join(d, "no", "out.go"), os.path.join(src, "out.go"), os.path.join(d, "n" * 300)])
            elif c["fault"] == "write":
                limit = r.random() < 0.5
                if not limit:
                    os.symlink("/dev/full", dest)
            if limit:
                wrap = ["prlimit", "--fsize=%d" % r.choice([0, 1, n - 1, n // 2, r.randrange(n)]), "--"]
            args.append(opt("o", "outfile", dest))
        if c["args"] == "bad":
            args.append(r.choice([["--nosuchflag"], ["-Z"], ["--ptr"]]))
            tail = args.pop()
        else:
            tail = []
        ptrs = [opt("p", "ptr", p) for p in c["ptrs"]]
        # the order of the options does not matter, that of the pointers does
        slots = sorted(r.random() for _ in ptrs)
        mixed = sorted([(r.random(), 0, a) for a in args] + [(s, 1, p) for s, p in zip(slots, ptrs)])
        argv = [x for _, _, a in mixed for x in a] + tail
        stdout = subprocess.PIPE
        if c["out"] == "stdout" and c["fault"] == "write":
            stdout = open("/dev/full", "wb")
        try:
            p = subprocess.run(wrap + [exe] + argv, cwd=d, stdin=subprocess.DEVNULL, stdout=stdout, stderr=subprocess.PIPE, timeout=120, env=ENV)
            res = {"e": "run", "ok": p.returncode == 0, "rc": p.returncode, "argv": argv, "detail": p.stderr.decode(errors="replace")[-800:]}
        except subprocess.TimeoutExpired:
            return {"e": "hang", "argv": argv}
        finally:
            if stdout is not subprocess.PIPE:
                stdout.close()
        if b"goroutine " in p.stderr and b"panic:" in p.stderr:
            res["e"] = "panic"
        want = None if code is None else code.encode()
        if c["out"] == "stdout":
            got = p.stdout or b""
            res["dest"] = "full" if want is not None and got == want and c["fault"] == "none" else "none" if not got else "part"
        elif os.path.isdir(dest):
            res["dest"] = "old" if not os.listdir(dest) else "part"
        elif os.path.islink(dest):
            res["dest"] = "part"
        elif not os.path.exists(dest):
            res["dest"] = "none"
        else:
            got = open(dest, "rb").read()
            res["dest"] = "full" if want is not None and got == want else "old" if got == old else "part"
        return res
    finally:
        shutil.rmtree(d, ignore_errors=True)

def build(run):
    exe = run.path("jsval")
    p = run.go(["build", "-trimpath", "-o", exe, "github.com/lestrrat-go/jsval/cmd/jsval"], run.source())
    if p.returncode:
        raise CheckError("the command does not build:\n" + p.stderr[-3000:])
    return exe

def requests(r, n):
    """larger requests than the model's"""
    for _ in range(n):
        k = r.choice([0, 1, 1, 2, 3, 5, 12])
        kinds = ["good"] * k
        if k and r.random() < 0.25:
            kinds[r.randrange(k)] = r.choice(["nowhere", "notobject", "malformed", "badref"])
        out, was, fault = r.choice([("stdout", "none", "none"), ("file", "none", "none"), ("file", "old", "none"), ("file", "old", "none"), ("file", "old", "write"), ("stdout", "none", "write")])
        yield {"args": "ok", "input": "ok", "kinds": kinds, "prefix": r.random() < 0.6, "out": out, "was": was, "fault": fault}

def check(run, cases):
    exe = build(run)
    for i, c in enumerate(cases):
        c["id"] = i + 1
    lib = {x["id"]: x.get("code") for x in run.drive("libgen", cases)}
    with ThreadPoolExecutor(8) as ex:
        for c, e in zip(cases, ex.map(lambda c: execute(run, exe, c, lib[c["id"]]), cases)):
            c["ev"] = [e]
    ok = sum(c["ev"][0].get("ok", False) for c in cases)
    n = run.cov.setdefault("runs", {"succeeded": 0, "failed": 0})
    n["succeeded"] += ok
    n["failed"] += len(cases) - ok
    run.log("%d runs succeeded, %d failed" % (ok, len(cases) - ok))
    return cases
