"""Building the driver from /repo, running it, and letting TLC judge."""
import glob, json, os, re, shutil, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(HERE, "spec")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
ENV = dict(os.environ, HOME="/root", GOPATH="/root/go", GOMODCACHE="/root/go/pkg/mod", GOCACHE=os.environ.get("GOCACHE", "/root/.cache/go-build"),
           GOTOOLCHAIN="local", GOPROXY="off", GOSUMDB="off", GOFLAGS="-mod=mod", GO111MODULE="on", GOWORK="off", TZ="UTC")
SHARDS = 8

class OverlayError(Exception):
    pass

class CheckError(Exception):
    """the check could not be carried out (not a verdict)"""

class Run:
    """one run of one check"""
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.dir = tempfile.mkdtemp(prefix="vf-%s-" % prop)
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "steps_validated": 0, "samples": [], "models": []}
        self.violations = []          # (description, replay payload)
        self.known = []
        self.assume = []
        self.bins = {}

    def thorough(self):
        return self.tier == "thorough"

    def n(self, quick, thorough):
        return thorough if self.thorough() else quick

    def log(self, *a):
        print("[%s %6.1fs]" % (self.prop, time.time() - self.t0), *a, flush=True)

    def path(self, name):
        return os.path.join(self.dir, name)

    # ------------------------------------------------------------- build --
    tags = os.environ.get("VERIF_TAGS", "")     # build tags of the driver
    overlay = ""                                # files of /repo replaced for the driver
    confirmed, hung = 0, False                  # crashes and hangs seen in this run

    def module(self, where):
        """go.mod/go.sum of a module that uses /repo's working tree"""
        for f in ("go.mod", "go.sum"):
            if not os.path.exists(os.path.join(REPO, f)):
                shutil.copy("/opt/vp/mod/" + f, os.path.join(REPO, f))
        mod = open(os.path.join(REPO, "go.mod")).read()
        mod = re.sub(r"^module .*$", "module vdrv", mod, flags=re.M)
        mod += "\nrequire github.com/lestrrat-go/jsval v0.0.0\nreplace github.com/lestrrat-go/jsval => %s\n" % REPO
        open(os.path.join(where, "go.mod"), "w").write(mod)
        shutil.copy(os.path.join(REPO, "go.sum"), where)

    def go(self, args, cwd, env=None, timeout=600, **kw):
        p = subprocess.run(["go"] + args, cwd=cwd, env=dict(ENV, **(env or {})), capture_output=True, text=True, timeout=timeout, **kw)
        return p

    def source(self):
        d = self.path("src")
        if not os.path.isdir(d):
            shutil.copytree(os.path.join(HERE, "driver"), d)
            self.module(d)
        return d

    def driver(self, race=False):
        key = "race" if race else "tags" if self.tags else "over" if self.overlay else "plain"
        if key not in self.bins:
            t = time.time()
            out = self.path("vdrv-" + key)
            p = self.go(["build", "-trimpath"] + (["-race"] if race else []) + (["-tags", self.tags] if self.tags else []) + (["-overlay", self.overlay] if self.overlay else []) + ["-o", out, "."], self.source())
            if p.returncode:
                if self.overlay:
                    raise OverlayError(p.stderr[:1500])
                raise CheckError("driver does not build:\n" + p.stderr[-3000:])
            self.bins[key] = out
            self.log("driver built in %.1fs" % (time.time() - t))
        return self.bins[key]

    def cache(self):
        """a build cache of our own, so that generated packages do not pile up in the shared one"""
        d = self.path("gocache")
        if not os.path.isdir(d):
            os.makedirs(d)
            if subprocess.run(["cp", "-al", ENV["GOCACHE"] + "/.", d], capture_output=True).returncode:
                shutil.rmtree(d)
                return ENV["GOCACHE"]
        return d

    def compile(self, codes, extra):
        """Compile generated code into one driver. codes: {case id: code}; extra: {case id: [variable names]}.
        -> (binary, {case id: why it does not compile or start})"""
        t = time.time()
        self.driver()
        src = self.path("gensrc")
        shutil.copytree(self.source(), src)
        for i, code in codes.items():
            d = os.path.join(src, "p%d" % i)
            os.makedirs(d)
            open(d + "/code.go", "w").write('package p%d\n\nimport jsval "github.com/lestrrat-go/jsval"\n%s\n' % (i, code))
            open(d + "/all.go", "w").write('package p%d\n\nimport jsval "github.com/lestrrat-go/jsval"\n\nfunc VerifAll() map[string]*jsval.JSVal {\n\treturn map[string]*jsval.JSVal{%s}\n}\n'
                                           % (i, ", ".join("%s: %s" % (json.dumps(n, ensure_ascii=False), n) for n in extra[i])))
        bad = {}
        out = self.path("vdrv-gen")
        for _ in range(12):
            live = [i for i in codes if i not in bad]
            with open(src + "/reg.go", "w") as f:
                f.write('package main\n\nimport (\n\t"vdrv/lib"\n%s)\n\nfunc init() {\n\t_ = lib.Gen\n%s}\n'
                        % ("".join('\t"vdrv/p%d"\n' % i for i in live), "".join("\tlib.Gen[%d] = p%d.VerifAll\n" % (i, i) for i in live)))
            p = self.go(["build", "-trimpath", "-gcflags=vdrv/...=-N -l", "-o", out, "."], src, env={"GOCACHE": self.cache()})
            if p.returncode:
                new = {}
                for part in re.split(r"^# ", p.stderr, flags=re.M):
                    m = re.match(r"vdrv/p(\d+)\n(.*)", part, re.S)
                    if m:
                        new[int(m.group(1))] = ("nocompile", m.group(2)[:1500])
                    for m in re.finditer(r"^p(\d+)/(?:code|all)\.go:.*", part, re.M):
                        new.setdefault(int(m.group(1)), ("nocompile", m.group(0)))
                if not new:
                    raise CheckError("generated code does not build:\n" + p.stderr[-3000:])
                bad.update(new)
                continue
            p = subprocess.run([out, "cons"], stdin=subprocess.DEVNULL, capture_output=True, text=True, timeout=120, env=ENV)
            if p.returncode == 0:
                break
            m = re.search(r"vdrv/p(\d+)\.", p.stderr)
            if not m:
                raise CheckError("the program with the generated code does not start:\n" + p.stderr[-3000:])
            bad[int(m.group(1))] = ("initpanic", p.stderr[:1500])
        else:
            raise CheckError("generated code keeps failing")
        shutil.rmtree(src)
        self.log("generated code of %d cases compiled in %.1fs, %d failed" % (len(codes), time.time() - t, len(bad)))
        return out, bad

    # ------------------------------------------------------------ driver --
    def _drive(self, mode, cases, binary, timeout, env=None, limit=20, race=False):
        f = tempfile.NamedTemporaryFile("w", dir=self.dir, delete=False, suffix=".cases")
        for c in cases:
            f.write(json.dumps(c, separators=(",", ":")) + "\n")
        f.close()
        prog = tempfile.NamedTemporaryFile(dir=self.dir, delete=False)
        out = tempfile.NamedTemporaryFile(dir=self.dir, delete=False)
        err = tempfile.NamedTemporaryFile(dir=self.dir, delete=False)
        e = dict(ENV, VDRV_TIMEOUT=str(limit), **(env or {}))
        # fd 3 is the progress file
        cmd = ["bash", "-c", ("" if race else "ulimit -v 4000000; ") + 'exec "$0" "$1" 3>"$2"', binary, mode, prog.name]
        p = subprocess.Popen(cmd, stdin=open(f.name), stdout=out, stderr=err, env=e, cwd=self.dir)
        return p, f.name, prog.name, out.name, err.name, cases, timeout

    def _collect(self, h):
        """-> (results, position of the case being executed at the end, rc, stderr)"""
        p, fn, prog, out, err, cases, timeout = h
        try:
            p.wait(timeout)
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
            raise CheckError("driver did not finish in %ds" % timeout)
        etext = open(err, errors="replace").read()
        if p.returncode == 3:
            raise CheckError("driver error: " + etext[-2000:])
        res = None
        if p.returncode in (0, 4):        # 4: stopped after a step that hung
            res = [json.loads(l) for l in open(out) if not (self.tags and l[0] != "{")]   # a tracing build prints at start
            if len(res) > len(cases) or p.returncode == 0 and len(res) != len(cases):
                raise CheckError("driver returned %d results for %d cases" % (len(res), len(cases)))
        idx = None
        try:
            idx = int(open(prog).read().strip() or 0)
        except ValueError:
            pass
        for x in (fn, prog, out, err):
            os.unlink(x)
        return res, idx, p.returncode, etext

    def drive(self, mode, cases, race=False, timeout=600, env=None, shards=SHARDS, binary=None):
        """Execute cases on the real code. Crashes and hangs are confirmed on
        their own; once some are confirmed, cases that were not reached are left out."""
        binary = binary or self.driver(race)
        out = {}
        todo = [p for p in (cases[i::shards] for i in range(shards)) if p]
        rounds, confirmed = 0, self.confirmed
        limit = 5 if self.hung else 20
        while todo:
            rounds += 1
            hs = [self._drive(mode, p, binary, timeout, env, limit=limit, race=race) for p in todo]
            again = []
            for part, h in zip(todo, hs):
                res, idx, rc, err = self._collect(h)
                if res is not None:
                    for c, r in zip(part, res):
                        out[c["id"]] = r
                    if rc == 4:
                        case = part[len(res) - 1]
                        again.append(part[len(res):])
                        if confirmed >= 2:
                            del out[case["id"]]
                            continue
                        one, _, rc1, _ = self._collect(self._drive(mode, [case], binary, timeout, env, limit=40, race=race))
                        if rc1 == 0:
                            out[case["id"]] = one[0]
                        else:
                            confirmed += 1
                            self.hung = True
                    continue
                # the process died on case idx
                if rc == -9:
                    raise CheckError("driver was killed (memory?)")
                if "panic: driver: " in err:
                    raise CheckError("driver error: " + err[:2000])
                if idx is None:
                    raise CheckError("driver died at start: rc=%s %s" % (rc, err[-1500:]))
                case = part[idx]
                if race and "WARNING: DATA RACE" in err:      # seen is seen
                    confirmed += 1
                    out[case["id"]] = dict(case, ev=[{"e": "race", "detail": err[:6000]}])
                    again.append(part[idx + 1:])
                    continue
                res1, _, rc1, err1 = self._collect(self._drive(mode, [case], binary, timeout, env, race=race))
                if res1 is not None:
                    # not on its own: with what came before?
                    res1, i1, rc1, err1 = self._collect(self._drive(mode, part[: idx + 1], binary, timeout, env, race=race))
                    if res1 is not None:
                        self.log("a crash of the driver did not reproduce (rc=%s): %s" % (rc, err[-500:]))
                        again.append(part)
                        continue
                confirmed += 1
                out[case["id"]] = dict(case, ev=[{"e": "crash", "detail": err1[:3000]}])
                again.append(part[:idx] + part[idx + 1:])
            todo = [p for p in again if p]
            self.confirmed = confirmed
            if todo and (confirmed >= 2 or time.time() - self.t0 > 300):
                if not confirmed:
                    raise CheckError("driver keeps dying")
                self.log("%d crashes or hangs confirmed: the remaining cases are left out" % confirmed)
                break
            if rounds > 40:
                raise CheckError("driver keeps dying")
        return [out[c["id"]] for c in cases if c["id"] in out]

    # --------------------------------------------------------------- TLC --
    def tlc(self, module, env=None, cfg=None, workers=8, timeout=800, heap="6g", extra=()):
        """run TLC; returns its output"""
        meta = tempfile.mkdtemp(dir=self.dir)
        cmd = ["java", "-Djava.io.tmpdir=" + self.dir, "-Xss64m", "-Xmx" + heap, "-XX:+UseParallelGC", "-cp", JARS, "tlc2.TLC", "-noGenerateSpecTE", "-metadir", meta,
               "-workers", str(workers), "-config", cfg or module + ".cfg"] + list(extra) + [module + ".tla"]
        e = dict(os.environ, **(env or {}))
        try:
            p = subprocess.run(cmd, cwd=SPEC, env=e, capture_output=True, text=True, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise CheckError("TLC on %s did not finish in %ds" % (module, timeout))
        finally:
            shutil.rmtree(meta, ignore_errors=True)
        return p.returncode, p.stdout + p.stderr

    COUNT = re.compile(r"(\d+) states generated, (\d+) distinct states found")

    def counts(self, out):
        m = None
        for m in self.COUNT.finditer(out):
            pass
        if not m:
            return 0, 0
        return int(m.group(1)), int(m.group(2))

    def model(self, module, cfg=None, env=None, timeout=800, heap="6g", extra=(), workers=8, note=""):
        """model-check a specification; its laws must hold. Returns the cases it printed."""
        t = time.time()
        rc, out = self.tlc(module, env, cfg, timeout=timeout, heap=heap, extra=extra, workers=workers)
        gen, dist = self.counts(out)
        if rc != 0:
            raise CheckError("the model %s violates its own laws or cannot be evaluated:\n%s" % (cfg or module, out[-3000:]))
        self.cov["states"] += dist
        self.cov["transitions"] += gen
        cases = []
        for line in out.splitlines():
            if line.startswith('<<"CASE", "'):
                cases.append(json.loads(json.loads(line[len('<<"CASE", '):-2])))
        self.cov["models"].append({"model": cfg or module, "generated": gen, "distinct": dist, "cases": len(cases), "wall_s": round(time.time() - t, 1)})
        self.log("model %s: %d states, %d distinct, %d cases, %.1fs" % (cfg or module, gen, dist, len(cases), time.time() - t))
        return cases

    def models(self, specs):
        """several models side by side"""
        from concurrent.futures import ThreadPoolExecutor
        with ThreadPoolExecutor(4) as ex:
            return list(ex.map(lambda x: self.model(x[0], cfg=x[1], workers=3, heap="4g"), specs))

    def validate(self, module, traces, cfg=None, timeout=800, heap="8g", env=None):
        """let TLC decide which recorded behaviours the specification allows.
        Returns [(trace, position)] for each rejected step."""
        if not traces:
            return []
        t = time.time()
        bad = []
        byid = {x["id"]: x for x in traces}
        assert len(byid) == len(traces)
        for k in range(0, len(traces), 20000):
            part = traces[k:k + 20000]
            f = self.path("trace.ndjson")
            steps = 0
            with open(f, "w") as h:
                for x in part:
                    h.write(json.dumps(slim(x, module), separators=(",", ":")) + "\n")
                    steps += len(x.get("ev", []))
            rc, out = self.tlc(module, dict(env or {}, TRACE=f), cfg, timeout=timeout, heap=heap)
            gen, dist = self.counts(out)
            if rc != 0:
                # what follows a step that cannot be explained may make no sense to the specification at all
                no = {int(m) for m in re.findall(r'<<"REJECT", (\d+), \d+>>', out)}
                if no and "unexpected exception" in out:
                    bad += [(byid[int(m.group(1))], int(m.group(2))) for m in re.finditer(r'<<"REJECT", (\d+), (\d+)>>', out)]
                    os.unlink(f)
                    bad += self.validate(module, [x for x in part if x["id"] not in no], cfg, timeout, heap, env)
                    continue
                i = max(out.find("Error:"), 0)
                raise CheckError("TLC failed on the recorded traces (%s):\n%s" % (module, out[i:i + 3000]))
            # vacuity: every behaviour must have been walked to its end
            expect = steps + len(part)
            if dist != expect:
                raise CheckError("%s walked %d states, expected %d" % (module, dist, expect))
            self.cov["states"] += dist
            self.cov["transitions"] += gen
            self.cov["traces_validated_against_impl"] += len(part)
            self.cov["steps_validated"] += steps
            for m in re.finditer(r'<<"REJECT", (\d+), (\d+)>>', out):
                bad.append((byid[int(m.group(1))], int(m.group(2))))
            os.unlink(f)
        self.log("%s: %d behaviours, %d rejected steps, %.1fs" % (module, len(traces), len(bad), time.time() - t))
        if traces and len(self.cov["samples"]) < 4:
            self.cov["samples"].append(shorten(traces[len(traces) // 2]))
        return bad

    def histories(self, module, traces, timeout=800, heap="8g"):
        """concurrent histories: is there a choice of instants that explains each?"""
        t = time.time()
        byid = {x["id"]: x for x in traces}
        bad = 0
        for k in range(0, len(traces), 20000):
            part = traces[k:k + 20000]
            f = self.path("trace.ndjson")
            with open(f, "w") as h:
                for x in part:
                    h.write(json.dumps(slim(x, module), separators=(",", ":")) + "\n")
            rc, out = self.tlc(module, dict(TRACE=f), None, timeout=timeout, heap=heap)
            if rc != 0:
                raise CheckError("TLC failed on the recorded histories (%s):\n%s" % (module, out[-3000:]))
            gen, dist = self.counts(out)
            self.cov["states"] += dist
            self.cov["transitions"] += gen
            self.cov["traces_validated_against_impl"] += len(part)
            self.cov["steps_validated"] += sum(len(x["ev"]) for x in part)
            done = {int(x) for x in re.findall(r'<<"DONE", (\d+)>>', out)}
            for x in part:
                if x["id"] not in done:
                    bad += 1
                    self.violation("%s has no order of effects that explains this history" % module, {"spec": module, "trace": x})
            os.unlink(f)
        self.log("%s: %d histories, %d not explained, %.1fs" % (module, len(traces), bad, time.time() - t))
        if traces and len(self.cov["samples"]) < 4:
            self.cov["samples"].append(shorten(traces[len(traces) // 2]))

    # ----------------------------------------------------------- verdict --
    def violation(self, what, payload):
        self.violations.append((what, payload))

    def reject(self, module, bad, mode=None):
        for tr, pos in bad:
            step = tr["ev"][pos - 1] if pos - 1 < len(tr["ev"]) else None
            self.violation("%s does not allow step %d" % (module, pos), {"spec": module, "mode": mode, "position": pos, "step": step, "trace": tr})

    def known_findings(self):
        """the listed defects of this property: do they still fail?"""
        for line in open(os.path.join(HERE, "known-findings.txt")):
            m = re.match(r"known: property=(\S+) case=(\S+) (.*)", line)
            if not m or m.group(1) != self.prop:
                continue
            k = json.load(open(os.path.join(HERE, m.group(2))))
            case = dict(k["case"], id=1)
            if k["mode"] == "cli":
                from . import cli
                tr = cli.check(self, [case])
            else:
                tr = self.drive(k["mode"], [case])
            if self.validate(k["spec"], tr):
                print("KNOWN-FINDING: property=%s %s" % (self.prop, m.group(3)), flush=True)
                self.known.append(m.group(2))

    def finish(self, level, exhaustive=None):
        ev = os.path.join(HERE, "evidence")
        os.makedirs(os.path.join(ev, "replays"), exist_ok=True)
        for f in glob.glob(os.path.join(ev, "replays", self.prop + "-*")):
            os.unlink(f)
        for i, (what, payload) in enumerate(self.violations[:20]):
            f = os.path.join(ev, "replays", "%s-%d.json" % (self.prop, i))
            json.dump({"property": self.prop, "what": what, "seed": self.seed, "tier": self.tier, "payload": payload}, open(f, "w"), indent=1, ensure_ascii=False)
            print("VIOLATION property=%s replay=%s (%s)" % (self.prop, f, what), flush=True)
        doc = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": level, "coverage": self.cov,
               "assumptions": self.assume, "known_findings": self.known, "wall_s": round(time.time() - self.t0, 1), "violations": len(self.violations)}
        json.dump(doc, open(os.path.join(ev, self.prop + ".json"), "w"), indent=1, ensure_ascii=False)
        self.log("done: %d violations" % len(self.violations))
        return 1 if self.violations else 0

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)

CONS = {"names", "src", "via", "detail", "nm", "x", "was", "text"}
DROP = {"TrCons": CONS, "TrConc": CONS, "TrServer": CONS | {"reqs", "raw", "exe"}, "TrCli": CONS - {"was"} | {"ptrs", "paths", "argv", "rc", "pick", "text"}, "TrRefs": CONS, "TrSchema": CONS | {"path"}, "TrBuilds": CONS | {"path", "texts"},
        "TrEmit": CONS - {"names"} | {"heap", "refs", "vals", "text", "doc", "sha", "vmap", "kind", "at", "len"},
        "TrTotal": CONS | {"vals", "vs", "v", "rx", "q", "sh", "idiv"}}

def slim(x, module=""):
    """drop what TLC does not read"""
    return _slim(x, DROP.get(module, {"via", "detail", "was"}))

def _slim(x, drop):
    if isinstance(x, dict):
        return {k: _slim(v, drop) for k, v in x.items() if k not in drop}
    if isinstance(x, list):
        return [_slim(v, drop) for v in x]
    return x

def shorten(x):
    s = json.dumps(slim(x), ensure_ascii=False)
    return json.loads(s) if len(s) < 3000 else s[:3000] + "..."
