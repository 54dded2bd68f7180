"""Random JSON schemas, in the encoding of spec/Schema.tla."""
import json, re
from .gen import *

SIMPLE = ["a", "b", "c", "foo", "fooBar", "x1", "ab"]
ODD = ["é", "a/b", "a~b", "100%", "a b", "日本", "", "~1", "%41", "q\"q", "a.b", "#", "a\\b", "😀"]

# objects that no schema is
NOSCHEMA = [{"type": 5}, {"type": [1]}, {"minimum": "1"}, {"properties": {"a": 1}}, {"properties": 3}, {"allOf": [1]},
            {"pattern": 1}, {"pattern": "("}, {"not": 1}, {"items": 1}, {"enum": 1}, {"type": "strin"}, {"uniqueItems": 1}, {"dependencies": 3}, {"additionalProperties": 1}, {"$ref": 1}, {"patternProperties": 1}]


class SGen(Gen):
    def __init__(self, rng, sh=None, default=False, refs=False, simple=False):
        super().__init__(rng, rng.choice([-2, -2, 0, 0, -4, -10, 20, 600, -600]) if sh is None else sh)
        self.default, self.userefs, self.simple = default, refs, simple
        self.names = [cp(x) for x in rng.sample(SIMPLE + ([] if simple else ODD[:9]), 5)]
        self.holes = []

    # ------------------------------------------------------- keyword sets --
    def string_kw(self, s):
        if self.chance(0.35):
            s["minLength"] = self.pick([0, 1, 2, 3, 5])
        if self.chance(0.35):
            s["maxLength"] = self.pick([0, 1, 2, 3, 5, 8])
        if self.chance(0.3):
            s["pattern"], s["patternSrc"] = self.regexp()
        if self.chance(0.2):
            s["format"] = self.pick(self.FORMATS[:1] + self.FORMATS[2:] + ["unknown", "datetime"])

    def number_kw(self, s):
        if self.chance(0.4):
            s["minimum"] = self.q()
            if self.chance(0.4):
                s["exclusiveMinimum"] = self.chance(0.7)
        if self.chance(0.4):
            s["maximum"] = self.q()
            if self.chance(0.4):
                s["exclusiveMaximum"] = self.chance(0.7)
        if self.chance(0.05):
            s["exclusiveMinimum"] = self.chance(0.7)
        if self.chance(0.3):
            one = self.idiv if 0 < self.idiv <= 1 << 26 else 1
            s["multipleOf"] = self.pick([1, 2, 3, one, 2 * one, 3 * one, 5 * one, 7, one + 1])

    def array_kw(self, s, d):
        if self.chance(0.25):
            s["minItems"] = self.pick([0, 1, 2, 3])
        if self.chance(0.25):
            s["maxItems"] = self.pick([0, 1, 2, 3, 4])
        if self.chance(0.25):
            s["uniqueItems"] = self.chance(0.8)
        k = self.r.random()
        if k < 0.4:
            s["items"] = {"one": self.schema(d - 1, below=True)}
        elif k < 0.75:
            s["items"] = {"many": [self.schema(d - 1, below=True) for _ in range(self.r.randint(1, 3))]}
        if self.chance(0.4):
            s["additionalItems"] = self.pick([{"b": False}, {"b": True}, None]) or {"s": self.schema(d - 1, below=True)}

    def object_kw(self, s, d):
        if self.chance(0.75):
            s["properties"] = [{"n": n, "s": self.schema(d - 1, below=True)} for n in self.some_names(0, 4)]
        if self.chance(0.35):
            s["required"] = self.some_names(0, 3)
        if self.chance(0.3) and not self.default:
            l, seen = [], set()
            for _ in range(self.r.randint(1, 2)):
                rx, src = self.regexp()
                if src not in seen:
                    seen.add(src)
                    l.append({"n": cp(src), "rx": rx, "s": self.schema(d - 1, below=True)})
            s["patternProperties"] = l
        if self.chance(0.5):
            s["additionalProperties"] = self.pick([{"b": False}, {"b": False}, {"b": True}, None]) or {"s": self.schema(d - 1, below=True)}
        if self.chance(0.2):
            s["minProperties"] = self.pick([0, 1, 2])
        if self.chance(0.2):
            s["maxProperties"] = self.pick([0, 1, 2, 3, 4])
        if self.chance(0.25):
            deps = []
            for n in self.some_names(1, 2):
                if self.chance(0.5) or self.default:
                    deps.append({"n": n, "ns": self.some_names(0, 2)})
                else:
                    deps.append({"n": n, "s": self.schema(d - 1)})
            s["dependencies"] = deps

    TYPES = ["string", "number", "integer", "boolean", "null", "array", "object"]

    def kw_for(self, t, s, d):
        if t == "string":
            self.string_kw(s)
        elif t in ("number", "integer"):
            self.number_kw(s)
        elif t == "array":
            self.array_kw(s, d)
        elif t == "object":
            self.object_kw(s, d)

    def enum(self, types):
        vs = []
        for _ in range(self.r.randint(1, 4)):
            t = self.pick(types) if types and self.chance(0.7) else self.pick(self.TYPES)
            vs.append(self.plain_of(t))
        return vs

    def plain_of(self, t):
        if t == "string":
            return S(self.word())
        if t in ("number", "integer"):
            q = self.q()
            if t == "integer" and self.idiv and q % self.idiv:
                q -= q % self.idiv
            return {"t": "num", "g": "f64", "q": q}
        if t == "boolean":
            return B(self.chance(0.5))
        if t == "null":
            return NIL
        if t == "array":
            return {"t": "arr", "e": [self.jsonv(0) for _ in range(self.r.randint(0, 2))]}
        return self.obj([(n, self.jsonv(0)) for n in self.some_names(0, 2)])

    def schema(self, d=2, below=False, noref=False):
        k = self.r.random()
        if self.userefs and not noref and self.chance(0.3 if below else 0.08):
            s = {"ref": None}
            self.holes.append((s, below))
            if self.chance(0.15):                # ignored next to $ref
                s["type"] = [self.pick(self.TYPES)]
            return s
        if k < 0.04:
            return {}
        s = {}
        if k < 0.66 or self.default:
            types = [self.pick(self.TYPES if d > 0 else self.TYPES[:5])]
            if self.default and d > 0 and self.chance(0.4):
                types = ["object"]
            if self.chance(0.2):
                types = self.r.sample(self.TYPES if d > 0 else self.TYPES[:5], self.pick([2, 2, 3]))
            if self.chance(0.85):
                s["type"] = types
            for t in types:
                self.kw_for(t, s, d)
            if self.chance(0.12):
                t = self.pick(self.TYPES)
                if t not in ("array", "object") or d > 0:
                    self.kw_for(t, s, d)
            if self.chance(0.15):
                s["enum"] = self.enum(types)
            if self.default and len(types) == 1 and self.chance(0.5) and types[0] in ("string", "number", "integer", "boolean"):
                s["default"] = self.plain_of(types[0])
                if self.chance(0.25):
                    s["default"] = {"string": S(""), "boolean": B(False)}.get(types[0], {"t": "num", "g": "f64", "q": 0})
            if self.default:
                return s
        elif k < 0.75:
            s["enum"] = self.enum([])
        if d > 0 and (k >= 0.75 or self.chance(0.15)):
            for _ in range(self.pick([1, 1, 2, 3])):
                kw = self.pick(["not", "allOf", "anyOf", "oneOf"])
                if kw == "not":
                    s["not"] = self.schema(d - 1)
                else:
                    s[kw] = [self.schema(d - 1) for _ in range(self.r.randint(1, 3))]
        return s

    # ---------------------------------------------------------- documents --
    def document(self, d=3):
        """a document with definitions; the references are filled in"""
        s = self.schema(d, noref=self.chance(0.9))
        if self.userefs:
            names = [cp(x) for x in self.r.sample(SIMPLE + ([] if self.simple else ODD), self.r.randint(1, 4))]
            s["definitions"] = [{"n": n, "s": self.schema(2)} for n in names]
            if not self.simple and self.chance(0.3):
                s["extra"] = [{"n": cp(self.pick(["components", "x-y", "stuff"])), "s": self.schema(1)}]
            if self.chance(0.3):
                s["junk"] = [cp("j" + str(i)) for i in range(2)]
            self.fill(s)
        return s

    def fill(self, doc):
        locs = []
        self.locations(doc, [], locs)
        bad = self.chance(0.12)
        if "junk" in doc and not self.simple and self.chance(0.3):
            bad = True
        for h, below in self.holes:
            if h.get("ref"):
                continue
            k = self.r.random()
            if bad and k < 0.4:
                h["ref"] = cp(self.pick(["#/definitions/nope", "#/nope", "#/definitions/%zz", "nofragment", "#foo", "#/j0", "#/j1", "#/j0", "#/j1", "#/definitions/a/nope", "#//", "#/definitions/",
                                         "http://example.com/schema#", "other.json#/a", "#/allOf/9"] + self.odd(locs) if not self.simple else ["#/definitions/nope", "#/properties/nope"]))
                if "".join(map(chr, h["ref"])) in ("#/j0", "#/j1") and "junk" not in doc:
                    h["ref"] = cp("#/definitions/nope")
            elif k < 0.1 and (below or self.chance(0.1)):
                h["ref"] = cp("#")
            else:
                dl = [l for l in locs if l[0] and l[0][0] == "definitions" and len(l[0]) == 2]
                pl = [l for l in locs if l[0] and l[0][0] == "properties" and len(l[0]) == 2]
                pool = dl * 3 + pl if self.simple else dl * 4 + locs
                toks, _ = self.pick(pool)
                h["ref"] = cp(self.pointer(toks))

    def odd(self, locs):
        """an index written as no index is"""
        l = [p for p, _ in locs if any(isinstance(t, int) for t in p)]
        if not l:
            return []
        p = list(self.pick(l))
        i = self.pick([i for i, t in enumerate(p) if isinstance(t, int)])
        p[i] = self.pick(["0%d", "+%d", "%d ", " %d", "-%d", "%d.0", "0x%d", "%de0"]) % p[i]
        return ["#" + "".join("/" + str(t).replace("~", "~0").replace("/", "~1").replace("%", "%25").replace(" ", "%20").replace("#", "%23").replace("\"", "%22").replace("\\", "%5C").replace("^", "%5E") for t in p)] * 4

    def pointer(self, toks):
        out = "#"
        for t in toks:
            t = str(t).replace("~", "~0").replace("/", "~1")
            e = ""
            for ch in t:
                if ch == "%" or ch in " \"\\#^" or ord(ch) > 127 and self.chance(0.5) or self.chance(0.03) and not self.simple:
                    e += "".join("%%%02X" % b for b in ch.encode())
                else:
                    e += ch
            out += "/" + e
        return out

    def locations(self, s, path, out):
        out.append((path, s))
        L = self.locations
        for kw in ("properties", "definitions", "patternProperties", "dependencies"):
            for x in s.get(kw, []):
                if "s" in x:
                    L(x["s"], path + [kw, "".join(map(chr, x["n"]))], out)
        for x in s.get("extra", []):
            L(x["s"], path + ["".join(map(chr, x["n"]))], out)
        for kw in ("allOf", "anyOf", "oneOf"):
            for i, x in enumerate(s.get(kw, [])):
                L(x, path + [kw, i], out)
        if "not" in s:
            L(s["not"], path + ["not"], out)
        for kw in ("additionalProperties", "additionalItems"):
            if "s" in s.get(kw, {}):
                L(s[kw]["s"], path + [kw], out)
        if "items" in s:
            if "one" in s["items"]:
                L(s["items"]["one"], path + ["items"], out)
            else:
                for i, x in enumerate(s["items"]["many"]):
                    L(x, path + ["items", i], out)

    # --------------------------------------------------------------- JSON --
    def number(self, q):
        if self.sh >= 0:
            n = q << self.sh
            return n if self.sh <= 20 and self.chance(0.7) else float(n)
        if self.idiv and q % self.idiv == 0:
            return q // self.idiv if self.chance(0.8) else float(q // self.idiv)
        return q * 2.0 ** self.sh

    def jval(self, v):
        t = v["t"]
        if t == "nil":
            return None
        if t == "bool":
            return v["b"]
        if t == "num":
            return self.number(v["q"])
        if t == "str":
            return "".join(map(chr, v["s"]))
        if t == "arr":
            return [self.jval(x) for x in v["e"]]
        return {"".join(map(chr, x["n"])): self.jval(x["v"]) for x in v["p"]}

    def to_json(self, s):
        st = lambda n: "".join(map(chr, n))
        J, o = self.to_json, []
        if "ref" in s:
            o.append(("$ref", st(s["ref"])))
        if "type" in s:
            o.append(("type", s["type"][0] if len(s["type"]) == 1 and self.chance(0.7) else s["type"]))
        for kw in ("minLength", "maxLength", "minItems", "maxItems", "minProperties", "maxProperties", "format", "exclusiveMinimum", "exclusiveMaximum", "uniqueItems"):
            if kw in s:
                o.append((kw, s[kw]))
        for kw in ("minimum", "maximum", "multipleOf"):
            if kw in s:
                o.append((kw, self.number(s[kw])))
        if "pattern" in s:
            o.append(("pattern", s["patternSrc"]))
        if "enum" in s:
            o.append(("enum", [self.jval(v) for v in s["enum"]]))
        if "default" in s:
            o.append(("default", self.jval(s["default"])))
        if "required" in s:
            o.append(("required", [st(n) for n in s["required"]]))
        for kw in ("properties", "definitions", "patternProperties"):
            if kw in s:
                l = [(st(x["n"]), J(x["s"])) for x in s[kw]]
                self.r.shuffle(l)
                o.append((kw, dict(l)))
        if "dependencies" in s:
            o.append(("dependencies", {st(x["n"]): J(x["s"]) if "s" in x else [st(n) for n in x["ns"]] for x in s["dependencies"]}))
        for kw in ("additionalProperties", "additionalItems"):
            if kw in s:
                o.append((kw, J(s[kw]["s"]) if "s" in s[kw] else s[kw]["b"]))
        if "items" in s:
            o.append(("items", J(s["items"]["one"]) if "one" in s["items"] else [J(x) for x in s["items"]["many"]]))
        for kw in ("allOf", "anyOf", "oneOf"):
            if kw in s:
                o.append((kw, [J(x) for x in s[kw]]))
        if "not" in s:
            o.append(("not", J(s["not"])))
        for x in s.get("extra", []):
            o.append((st(x["n"]), J(x["s"])))
        for n in s.get("junk", []):
            o.append((st(n), self.pick([1, "x", True, None, [1, 2], ["a"]] + NOSCHEMA)))
        if self.chance(0.1):
            o.append((self.pick(["title", "description"]), self.word()))
        if self.chance(0.12):                    # says nothing about values; the same one may well turn up elsewhere
            o.append(self.pick([("id", "http://example.com/a"), ("id", "a"), ("id", "#a"), ("title", "T"), ("description", "D"), ("$schema", "http://json-schema.org/draft-04/schema#")]))
        self.r.shuffle(o)
        return dict(o)

    def text(self, s):
        return json.dumps(self.to_json(s), ensure_ascii=self.chance(0.5), indent=self.pick([None, None, 1]))

    # ------------------------------------------------------ values that fit --
    def resolve(self, ref, doc):
        try:
            from urllib.parse import unquote
            t = unquote("".join(map(chr, ref)))
            if not t.startswith("#"):
                return None
            toks = [x.replace("~1", "/").replace("~0", "~") for x in t[1:].split("/")[1:]]
            locs = []
            self.locations(doc, [], locs)
            for p, s in locs:
                if [str(x) for x in p] == toks:
                    return s
        except Exception:
            pass
        return None

    def sfit(self, s, doc, d=5):
        """a JSON value that probably satisfies s"""
        if d <= 0 or self.chance(0.04):
            return self.jsonv(1)
        if "ref" in s:
            t = self.resolve(s["ref"], doc)
            return self.sfit(t, doc, d - 1) if t is not None else self.jsonv(1)
        if "enum" in s and self.chance(0.8):
            return self.pick(s["enum"])
        types = s.get("type")
        combos = [x for kw in ("allOf", "anyOf", "oneOf") for x in s.get(kw, [])]
        if combos and (not types or self.chance(0.5)):
            return self.sfit(self.pick(combos), doc, d - 1)
        if not types:
            types = []
            if any(k in s for k in ("properties", "required", "patternProperties", "dependencies", "additionalProperties", "minProperties", "maxProperties")):
                types.append("object")
            if any(k in s for k in ("items", "minItems", "maxItems", "uniqueItems", "additionalItems")):
                types.append("array")
            if any(k in s for k in ("minLength", "maxLength", "pattern", "format")):
                types.append("string")
            if any(k in s for k in ("minimum", "maximum", "multipleOf", "exclusiveMinimum", "exclusiveMaximum")):
                types.append("number")
            if not types:
                return self.jsonv(2)
        t = self.pick(types)
        if t == "string":
            c = {"k": "string", "calls": []}
            for kw, m in (("minLength", "MinLength"), ("maxLength", "MaxLength")):
                if kw in s:
                    c["calls"].append({"m": m, "n": s[kw]})
            if "pattern" in s:
                c["calls"].append({"m": "Regexp", "rx": s["pattern"]})
            if "format" in s and s["format"] in self.FORMATS:
                c["calls"].append({"m": "Format", "f": s["format"]})
            v = self.fit(c)
            return S("".join(map(chr, v["to"]["s"] if v["t"] == "ptr" else v["s"])))
        if t in ("number", "integer"):
            c = {"k": t, "calls": []}
            for kw, m in (("minimum", "Minimum"), ("maximum", "Maximum"), ("multipleOf", "MultipleOf")):
                if kw in s:
                    c["calls"].append({"m": m, "q": s[kw]})
            v = self.fit(c)
            v = v["to"] if v["t"] == "ptr" else v
            return {"t": "num", "g": "f64", "q": v["q"]} if v["t"] == "num" else self.jsonv(0)
        if t in ("boolean", "null"):
            return self.plain_of(t)
        if t == "array":
            lo, hi = s.get("minItems", 0), s.get("maxItems", 4)
            n = self.pick([lo, hi, self.r.randint(0, 4), lo + 1])
            if self.chance(0.1):
                n = self.pick([lo - 1, hi + 1])
            e = []
            it = s.get("items", {})
            for i in range(max(n, 0)):
                if "one" in it:
                    rule = it["one"]
                elif "many" in it and i < len(it["many"]):
                    rule = it["many"][i]
                else:
                    rule = s.get("additionalItems", {}).get("s")
                e.append(self.sfit(rule, doc, d - 1) if rule is not None else self.jsonv(1))
            if e and self.chance(0.15):
                e.append(self.pick(e))
            return {"t": "arr", "e": e}
        props = {}
        req = s.get("required", [])
        decl = {tuple(x["n"]): x["s"] for x in s.get("properties", [])}
        for n, ps in decl.items():
            if list(n) in req or self.chance(0.6):
                props[n] = self.sfit(ps, doc, d - 1)
        for n in req:
            if tuple(n) not in props and self.chance(0.9):
                props[tuple(n)] = self.jsonv(0)
        for x in s.get("patternProperties", []):
            if self.chance(0.5):
                props.setdefault(tuple(cp(self.rx_string(x["rx"])[:6])), self.sfit(x["s"], doc, d - 1))
        ap = s.get("additionalProperties", {"b": True})
        if self.chance(0.5) and ("s" in ap or ap.get("b")):
            for n in self.some_names(0, 2):
                props.setdefault(tuple(n), self.sfit(ap["s"], doc, d - 1) if "s" in ap else self.jsonv(0))
        for x in s.get("dependencies", []):
            if tuple(x["n"]) in props and self.chance(0.7):
                if "ns" in x:
                    for n in x["ns"]:
                        props.setdefault(tuple(n), self.jsonv(0))
                else:
                    y = self.sfit(x["s"], doc, d - 1)
                    if y["t"] == "obj":
                        for q in y["p"]:
                            props.setdefault(tuple(q["n"]), q["v"])
        if self.chance(0.1):
            props[tuple(self.name())] = self.jsonv(0)
        if props and self.chance(0.12):
            del props[self.pick(sorted(props))]
        return self.obj([(list(n), v) for n, v in sorted(props.items())])

def strip(s):
    """what the specification reads"""
    if isinstance(s, dict):
        return {k: strip(v) for k, v in s.items() if k != "patternSrc"}
    if isinstance(s, list):
        return [strip(x) for x in s]
    return s

def schema_case(g, doc, ev, nilctx=False, path=()):
    return {"sh": g.sh, "idiv": g.idiv, "doc": strip(doc), "text": g.text(doc), "path": list(path), "at": cp(g.pointer(path)), "nilctx": nilctx, "ev": ev}
