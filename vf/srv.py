"""C17: requests to the playground server."""
import base64, copy, json
from .cli import document, NOTSCHEMA, TRAILING
from .gen import cp
from .schema import strip

PATHS = ["/x", "/generate", "/generate.json/", "/index.html", "//", "/Generate.json", "/generate.json5", "/favicon.ico", "/a/b", "/generate.jso"]
JUNK = [b"", b" ", b"{", b"}", b"[]", b"[1]", b"1", b'"a"', b"true", b"nul", b"{\"type\":", b"{\"type\" \"string\"}", b"{'type':'string'}", b"\xff\xfe", b"\x00" * 20, b"[" * 20000,
        b'{"a":' * 20000, b"<html></html>", b"type: string", b'{"type":"string",}', b"{\"$ref\":" + b"x" * 5000]
RAW = [b"\r\n\r\n", b"GET\r\n\r\n", b"POST /generate.json HTTP/1.1\r\n\r\n", b"POST /generate.json HTTP/1.1\r\nHost: x\r\nContent-Length: -1\r\n\r\n{}", b"\x16\x03\x01\x00", b"GET / HTTP/9.9\r\nHost: x\r\n\r\n",
       b"POST /generate.json HTTP/1.1\r\nHost: x\r\nTransfer-Encoding: chunked\r\n\r\nzz\r\n", b"x" * 5000]

def b64(x):
    return base64.b64encode(x).decode()

SAME = [["string", "number", "object"], ["integer", "boolean"]]

def r_pick(r, a, b):
    return a if r.random() < 0.5 else b

def kin(r, d):
    """a document that is nearly the same"""
    d = copy.deepcopy(d)
    ways = []
    def names(l, get, put):
        have = [get(x) for x in l]
        for i, n in enumerate(have):
            if n:
                for b in (1, 2):
                    m = n[:-1] + [n[-1] ^ b]
                    if 97 <= n[-1] <= 122 and 97 <= m[-1] <= 122 and m not in have:
                        ways.append(lambda i=i, m=m: put(l, i, m))
    def walk(s):
        for kw in ("minLength", "maxLength", "minItems", "maxItems", "minProperties", "maxProperties"):
            if 0 <= s.get(kw, -1) < 8:
                ways.append(lambda kw=kw: s.__setitem__(kw, s[kw] ^ 1))
        for kw in ("uniqueItems", "exclusiveMinimum", "exclusiveMaximum"):
            if kw in s:
                ways.append(lambda kw=kw: s.__setitem__(kw, not s[kw]))
        if len(s.get("type", [])) == 1 and set(s) <= {"type"}:
            for l in SAME:
                if s["type"][0] in l:
                    ways.extend(lambda t=t: s.__setitem__("type", [t]) for t in l if t != s["type"][0])
        if "required" in s:
            names(s["required"], lambda x: x, lambda l, i, m: l.__setitem__(i, m))
        for kw in ("properties", "definitions"):
            if kw in s:
                names(s[kw], lambda x: x["n"], lambda l, i, m: l[i].__setitem__("n", m))
                for x in s[kw]:
                    walk(x["s"])
        for kw in ("allOf", "anyOf", "oneOf"):
            if len(s.get(kw, [])) > 1:
                ways.append(lambda kw=kw: s[kw].reverse())
            for x in s.get(kw, []):
                walk(x)
        for x in [s.get(kw, {}).get("s") for kw in ("additionalProperties", "additionalItems")] + [s.get("not"), s.get("items", {}).get("one")] + s.get("items", {}).get("many", []):
            if x is not None:
                walk(x)
    walk(d)
    if not ways:
        return None
    r.choice(ways)()
    return d

class World:
    def __init__(self, r):
        self.r, self.docs = r, []

    def doc(self, bad=False):
        g, d = document(self.r)
        if bad:
            d = {"type": ["object"], "properties": [{"n": cp("a"), "s": {"ref": cp(self.r.choice(["#/definitions/nope", "#/x/y"]))}}]}
        self.last = (g, d, self.r.getstate())
        return self.put(g, d)

    def put(self, g, d):
        self.docs.append({"doc": strip(d), "text": g.text(d), "idiv": g.idiv, "sh": g.sh})
        return len(self.docs)

    def kin(self):
        """nearly the document before, written the same way"""
        g, d, was = getattr(self, "last", None) or (self.doc(), self.last)[1]
        k = kin(self.r, d)
        if k is None:
            return self.doc()
        now = self.r.getstate()
        self.r.setstate(was)
        n = self.put(g, k)
        self.r.setstate(now)
        self.last = (g, r_pick(self.r, d, k), was)
        return n

    def request(self, k):
        r = self.r
        q = {"path": cp("/generate.json"), "method": "POST", "body": {"k": "junk", "d": 0, "raw": ""}, "how": r.choice(["len", "len", "chunk"])}
        if k == "page":
            q.update(path=cp("/"), query=r.choice(["", "", "?a=1"]), method="GET")
        elif k == "other":
            q.update(path=cp(r.choice(PATHS)), method=r.choice(["GET", "POST"]))
        elif k == "good1":
            self.one = getattr(self, "one", None) or self.doc()
            q["body"] = {"k": "doc", "d": self.one, "raw": ""}
        elif k == "good2":
            q["body"] = {"k": "doc", "d": self.doc(), "raw": ""}
        elif k == "kin":
            q["body"] = {"k": "doc", "d": self.kin(), "raw": ""}
        elif k == "badref":
            q["body"] = {"k": "doc", "d": self.doc(True), "raw": ""}
        elif k == "gone":
            q.update(how=r.choice(["gone", "gone", "raw"]))
            q["body"]["raw"] = b64(r.choice([b'{"type":"string"}', b"{", b""] if q["how"] == "gone" else RAW))
        elif k == "empty":
            q.update(method=r.choice(["POST", "GET", "PUT"]))
        else:
            x = r.choice(JUNK + [s.encode() for s in NOTSCHEMA])
            if r.random() < 0.2:
                t = self.docs[self.doc() - 1]["text"].strip()
                x = t[: r.randrange(1, len(t))].encode() if r.random() < 0.5 else (t + r.choice(TRAILING)).encode()
            q["body"]["raw"] = b64(x)
        if q["body"]["k"] == "doc" and r.random() < 0.12:
            q["body"]["pad"] = r.choice([300, 2000, 5000, 17000, 40000, 70000, 300000, 700000])
        return q

def case(r, kinds, threads, exe=""):
    w = World(r)
    reqs = [w.request(k) for k in kinds]
    return {"docs": w.docs, "reqs": reqs, "threads": threads, "exe": exe, "ev": []}

KINDS = ["page", "other", "good1", "good1", "good2", "good2", "good2", "kin", "kin", "kin", "badref", "junk", "junk", "empty", "gone"]
