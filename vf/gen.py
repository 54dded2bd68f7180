"""Random cases for the real library, in the encoding of spec/Cons.tla.

Nothing here knows what the right answers are: the specification decides.
The generators only try to reach interesting inputs, and stay inside the
part of the input space that the specification describes (see DESIGN.md)."""
import json, random, re

def cp(s):
    return [ord(ch) for ch in s]

def S(s, **kw):
    return dict({"t": "str", "s": cp(s)}, **kw)

NIL = {"t": "nil"}
EMPTY = {"k": "empty", "calls": []}
NILC = {"id": 0}

def B(b):
    return {"t": "bool", "b": b}

WORDS = ["", "a", "b", "c", "ab", "abc", "ba", "aa", "x1", "A", "0", "12", "é", "日本", "日本語x", "😀", "a b",
         "foo", "foo.bar", "a-b", "true", "null", "\"q\"", "a\\b", "100%", "%s%d", "a\nb", "tab\t", "'", "`", "$", "\u00e9\u0301"]
NAMES = ["a", "b", "c", "d", "foo", "fooBar", "x1", "ab", "é", "", "a.b", "100%", "\"q\""]

def variant(r, w, taken=()):
    """a name that is nearly w: code that folds, trims or cuts names confuses the two"""
    import unicodedata
    l = [w + " ", " " + w, w + "\t", w.upper(), w.lower(), w.capitalize(), w[:1].upper() + w[1:], w[:1].lower() + w[1:], w + "/", "/" + w, w[:-1], w + w, w + w[:1], w + "\0", w + "0", "_" + w, w.replace(".", "/"), w.replace("B", "_b"),
         unicodedata.normalize("NFD", w), unicodedata.normalize("NFC", w), "aa" if w > "aa" else "b"]
    l = [x for x in l if x not in taken]
    return r.choice(l)

def quirk(s):
    """texts on which Go's parsers are laxer than the grammars in Fmt.tla"""
    if re.search(r"^\d{4}-\d\d-\d\dT", s):
        return bool(re.search(r"T\d:|,\d|[+-](24|..:60)|:60", s))
    return False

BLANK = {"go": [], "tag": [], "exp": True, "emb": False, "maybe": False, "valid": False, "mk": "", "ptr": False, "nilp": False, "any": False, "v": NIL}

# bytes that are not UTF-8 stand as surrogates (driver/lib/value.go); no two of these combine
RAWS = ["\udcff", "\udcfe", "a\udcff", "\udcffa", "\udcff\udcff", "\ufffd", "a\ufffd", "\udcc0\udc80", "\udc80", "日\udc80", "a", "aa"]

class Gen:
    RAW = 0.0                            # how often texts are not UTF-8

    def __init__(self, rng, sh=None):
        self.r = rng
        self.raw = self.RAW and rng.random() < self.RAW
        self.sh = sh if sh is not None else rng.choice([-2, -2, -2, 0, 0, -10, -30, -60, 20, 60, 62, 600, -600])
        self.idiv = 1 if self.sh >= 0 else (1 << -self.sh if self.sh >= -30 else 0)
        ns = rng.sample(NAMES, rng.randint(3, 6))
        if rng.random() < 0.4:
            ns.append(variant(rng, rng.choice(ns), ns))
        if self.raw:
            ns[1:] = rng.sample(RAWS, rng.randint(3, 6))
        self.names = [cp(x) for x in ns]
        self.refs = []
        self.both = True                 # property and schema dependencies of one name

    # ------------------------------------------------------------ basics --
    def chance(self, p):
        return self.r.random() < p

    def pick(self, l):
        return self.r.choice(l)

    def word(self):
        if self.raw and self.chance(0.7):
            return self.pick(RAWS)
        if self.chance(0.8):
            return self.pick(WORDS)
        return "".join(self.pick("ab1é日😀-. ") for _ in range(self.r.randint(0, 8)))

    def name(self):
        if self.chance(0.95):
            return self.pick(self.names)
        return cp(self.word())

    def q(self):
        """a number in units"""
        r = self.r
        one = self.idiv if 0 < self.idiv <= 1 << 26 else 1
        if self.chance(0.04):
            return self.pick([1, -1]) * ((1 << 30) + r.randint(-3, 3))
        return self.pick([0, 1, -1, one, -one, 2 * one, 3 * one, one + 1, one - 1, 10 * one, r.randint(-12, 12) * one,
                          r.randint(-40, 40), r.randint(-12, 12) * one, r.randint(-3, 3) * one])

    def num(self, q=None, floats=False):
        if q is None:
            q = self.q()
        v = {"t": "num", "g": "f64", "q": q}
        if floats or self.chance(0.45):
            if abs(self.sh) <= 62 and abs(q) < 1 << 24 and self.chance(0.2):
                v["g"] = "f32"
            elif self.chance(0.1):
                v["nm"] = True
            return v
        gs = self.int_kinds(q)
        if gs:
            v["g"] = self.pick(gs)
            if v["g"] == "int" and self.chance(0.1):
                v["nm"] = True
        return v

    def int_kinds(self, q):
        """Go integer types that can hold q units"""
        if self.idiv == 0:
            if q != 0:
                return []
            n = 0
        elif q % self.idiv:
            return []
        elif self.sh > 64:
            if q:
                return []
            n = 0
        else:
            n = q * (1 << max(self.sh, 0)) // self.idiv
        gs = []
        for b in (8, 16, 32, 64):
            if -(1 << b - 1) <= n < 1 << b - 1:
                gs.append("i%d" % b)
            if 0 <= n < 1 << b:
                gs.append("u%d" % b)
        if 0 <= n < 1 << 64:
            gs.append("uint")
        if -(1 << 63) <= n < 1 << 63:
            gs += ["int", "int"]
        return gs

    def exotic(self):
        return self.pick([
            {"t": "nilof", "g": "ptr"}, {"t": "nilof", "g": "ptr", "x": "struct"}, {"t": "nilof", "g": "ptr", "x": "map"},
            {"t": "nilof", "g": "ptr", "x": "num"}, {"t": "nilof", "g": "map"}, {"t": "nilof", "g": "slice"},
            {"t": "nilof", "g": "chan"}, {"t": "nilof", "g": "func"}]
            + [{"t": "other", "g": g} for g in
               ["chan", "func", "complex", "complex64", "gobytes", "goarray", "goarray0", "intmap", "anymap", "structmap",
                "boolmap", "emptyintmap", "ptrptr", "ptrptrint", "ptriface", "unsafe", "ptrchan", "ptrfunc", "ptrslice",
                "ptrintmap"]])

    # ------------------------------------------------------------ values --
    def scalar(self):
        k = self.r.random()
        if k < 0.3:
            v = S(self.word())
            if self.chance(0.1):
                v["nm"] = True
            return v
        if k < 0.6:
            return self.num()
        if k < 0.75:
            return dict(B(self.chance(0.5)), **({"nm": True} if self.chance(0.1) else {}))
        return NIL

    def jsonv(self, d=2):
        """a plain JSON value as encoding/json would decode it"""
        k = self.r.random()
        if d <= 0 or k < 0.55:
            k = self.r.random()
            if k < 0.35:
                return S(self.word())
            if k < 0.7:
                return {"t": "num", "g": "f64", "q": self.q()}
            if k < 0.85:
                return B(self.chance(0.5))
            return NIL
        if k < 0.75:
            return {"t": "arr", "e": [self.jsonv(d - 1) for _ in range(self.r.randint(0, 3))]}
        return self.obj([(n, self.jsonv(d - 1)) for n in self.some_names()])

    def some_names(self, lo=0, hi=4):
        n = min(self.r.randint(lo, hi), len(self.names))
        return self.r.sample(self.names, n)

    def obj(self, pairs, g="any"):
        seen, p = set(), []
        for n, v in pairs:
            if tuple(n) not in seen:
                seen.add(tuple(n))
                p.append({"n": n, "v": v})
        return {"t": "obj", "g": g, "p": p}

    def value(self, d=2, exotic=0.08):
        k = self.r.random()
        if k < exotic:
            return self.exotic()
        if d <= 0 or k < 0.5:
            v = self.scalar()
            if v["t"] != "nil" and self.chance(0.08):
                v = {"t": "ptr", "to": v}
            return v
        if k < 0.7:
            g = self.pick(["any"] * 6 + ["named", "str", "int", "f64", "bool"])
            n = self.r.randint(0, 4)
            if g in ("any", "named"):
                return {"t": "arr", "g": g, "e": [self.value(d - 1, exotic / 2) for _ in range(n)]}
            return {"t": "arr", "g": g, "e": [self.typed(g) for _ in range(n)]}
        g = self.pick(["any"] * 6 + ["named", "nkey", "str", "int", "f64"])
        if g in ("any", "named", "nkey"):
            v = self.obj([(n, self.value(d - 1, exotic / 2)) for n in self.some_names()], g)
        else:
            v = self.obj([(n, self.typed(g)) for n in self.some_names()], g)
        if self.chance(0.08):
            v = {"t": "ptr", "to": v}
        return v

    def typed(self, g):
        if g == "str":
            return S(self.word())
        if g == "bool":
            return B(self.chance(0.5))
        if g == "f64":
            return {"t": "num", "g": "f64", "q": self.q()}
        for _ in range(20):
            q = self.q()
            if "int" in self.int_kinds(q):
                return {"t": "num", "g": "int", "q": q}
        return {"t": "num", "g": "int", "q": 0}

    # ----------------------------------------------------------- regexps --
    def regexp(self):
        """(ast, source text)"""
        alts, srcs = [], []
        for _ in range(self.pick([1, 1, 1, 2])):
            items, src = [], ""
            for _ in range(self.pick([0, 1, 1, 2, 2, 3])):
                it, t = self.rx_item()
                items.append(it)
                src += t
            alts.append(items)
            srcs.append(src)
        al, ar = self.chance(0.5), self.chance(0.5)
        body = "|".join(srcs)
        if len(srcs) > 1 or self.chance(0.2):
            body = "(?:" + body + ")"
        # $ in Go without (?m) is the end of the text
        return {"al": al, "ar": ar, "alts": alts}, ("^" if al else "") + body + ("$" if ar else "")

    def rx_item(self):
        k = self.r.random()
        esc = lambda c: "\\" + c if c in "\\.+*?()|[]{}^$-" else {"\n": "\\n", "\t": "\\t"}.get(c, c) if self.chance(0.7) else c
        if k < 0.55:
            ch = self.pick("abc1é日x.-\"%abc1é日x.-\"%`'/\\\n\t$ {")
            r, neg = [[ord(ch), ord(ch)]], False
            t = esc(ch)
        elif k < 0.65:
            r, neg, t = [[10, 10]], True, "."
        elif k < 0.75:
            r, neg, t = [[48, 57]], False, "\\d"
        else:
            r, t = [], ""
            for _ in range(self.pick([1, 1, 2])):
                a, b = self.pick([("a", "c"), ("0", "9"), ("a", "z"), ("A", "Z"), ("日", "語"), ("_", "_")])
                if ord(a) > ord(b):
                    a, b = b, a
                r.append([ord(a), ord(b)])
                t += a + "-" + b
            neg = self.chance(0.2)
            t = "[" + ("^" if neg else "") + t + "]"
        lo, hi, suf = self.pick([(1, 1, "")] * 4 + [(0, -1, "*"), (1, -1, "+"), (0, 1, "?"), (2, 2, "{2}"), (1, 3, "{1,3}"), (2, -1, "{2,}")])
        return {"lo": lo, "hi": hi, "neg": neg, "r": r}, t + suf

    def rx_string(self, rx):
        """a text that probably matches"""
        s = ""
        alt = self.pick(rx["alts"]) if rx["alts"] else []
        for it in alt:
            n = self.r.randint(it["lo"], it["lo"] + 2 if it["hi"] < 0 else it["hi"])
            for _ in range(n):
                if it["neg"]:
                    s += self.pick("aZ9_é ")
                else:
                    a, b = self.pick(it["r"])
                    s += chr(self.r.randint(a, b))
        if not rx["al"] and self.chance(0.3):
            s = self.pick("ab1 ") + s
        if not rx["ar"] and self.chance(0.3):
            s = s + self.pick("ab1 ")
        return s

    # ----------------------------------------------------------- formats --
    FORMATS = ["date-time", "datetime", "hostname", "ipv4", "ipv6", "email", "uri"]

    def fmt_string(self, f):
        while True:
            s = self.fmt_string1(f)
            if not quirk(s):
                return s

    EDGES = {
        "uri": ["", "*", "/", "//", "///", "////", ":", ":a", "a:", "a:b", "a:b:c", "1:b", "a/b:c", "/a:b", "./a:b", "a b", "é:b", "a%zz", "a%41", "mailto:%zz", "mailto:a@b", "urn:a:b",
                "http:", "http:/", "http://", "http://a", "http://a:80", "http://a:b", "http://a:", "http://a:1:2", "ftp://a:1:2", "http://[::1]", "http://[::1]:80", "http://[1.2.3.4]", "http://[::1",
                "http://a]b", "http://a[b]", "http://u@a", "http://u:p@a", "http://u:p:q@a", "http://u@v@a", "http://é@a", "http://u%4@a", "http://a b", "http://a%41", "http://a%C3", "http://a%25",
                "http://a/%41", "http://a/%4", "http://a?%4", "http://a#%4", "http://a#%41", "a#b#c", "?", "?a:b", "#", "#:", "?a#b", "http://a/b?c#d", "//a:80/b", "//a:b/", "///a:b", "\x7f", "a\x01", "http://é/é", "a\nb",
                "http://{a}", "http://a/{a}", "http://<a>", "http://a^b", "http://a|b", "HTTP://a:1:2", "-a:b", "a.b:c", "a_b:c", "a_b:c/d", "a_b/c:d"],
        "ipv4": ["1::2", "::1", "::", "1:2:3:4:5:6:7:8", "::1.2.3.4", "::ffff:1.2.3.4", "1.2.3.4:80", "1.2.3.4/8", "01.2.3.4", "1.2.3.04", "1.2.3.4 ", " 1.2.3.4", "1.2.3.4\n",
                 "1..3.4", ".1.2.3.4", "1.2.3.4.", "1.2.3", "1.2.3.4.5", "+1.2.3.4", "0x1.2.3.4", "1.2.3.4a", "16909060", "", "0.0.0.0", "255.255.255.255", "1.2.3.256"],
        "ipv6": ["::", "::1", "1::", ":", ":::", "1.2.3.4", "::1.2.3.4", "::ffff:1.2.3.4", "1:2:3:4:5:6:1.2.3.4", "1:2:3:4:5:6:7:1.2.3.4", "1:2:3:4:5:6:7::", "1:2:3:4:5:6:7:8::",
                 "1:2:3:4:5:6:7:8", "1:2:3:4:5:6:7", "[::1]", "::1/64", "fe80::1%eth0", "::1%", "1::2::3", "00001::", "::g", " ::1", "::1 ", "", "1:2:3:4:5:6:7:", ":2:3:4:5:6:7:8", "::01.2.3.4", "::1.2.3"],
        "hostname": ["", ".", "a", "a.", ".a", "a..b", "-a", "a-", "a-b", "a.-b", "a.b-", "a.b-c", "_a", "a_b", "1", "1.2", "1.2.3.4", "a b", "é.com", "a/b", "a:80", "A.B", "1a", "a1"],
        "email": ["", "@", "a@", "@b", "a@b", "a@b@c", "a b@c", "a@b c", "a.b@c", ".a@b", "a.@b", "a..b@c", "a@.b", "a@b.", "a@b..c", "A@B", "a+b@c", "a@1"],
        "date-time": ["2016-02-29T00:00:00Z", "2015-02-29T00:00:00Z", "2000-02-29T00:00:00Z", "1900-02-29T00:00:00Z", "2016-04-31T00:00:00Z", "2016-01-01T24:00:00Z", "2016-01-01T23:59:60Z",
                      "2016-01-01", "2016-01-01T00:00Z", "16-01-01T00:00:00Z", "2016-1-1T00:00:00Z", "2016-01-01T00:00:00", "2016-01-01T00:00:00.Z", "2016-01-01T00:00:00.1Z", "",
                      "2016-01-01T00:00:00+23:59", "2016-01-01T00:00:00-00:00", "2016-01-01T00:00:00Z ", " 2016-01-01T00:00:00Z", "2016-01-01 00:00:00Z", "20160101T000000Z"],
    }

    def fmt_string1(self, f):
        r = self.r
        if self.chance(0.15):
            k = "date-time" if f == "datetime" else f
            if self.chance(0.3):
                k = self.pick([x for x in self.EDGES if x != k])
            if k in self.EDGES:
                return self.pick(self.EDGES[k])
        if f in ("date-time", "datetime"):
            y, mo = self.pick([1999, 2000, 2016, 2015, 1900, 2100, 0, 9999, r.randint(0, 9999)]), r.randint(1, 12)
            d = self.pick([1, 28, 29, 30, 31, r.randint(1, 28)])
            if self.chance(0.1):
                mo = self.pick([0, 13, 19])
            if self.chance(0.05):
                d = self.pick([0, 32])
            h, mi, s = r.randint(0, 23), r.randint(0, 59), r.randint(0, 59)
            if self.chance(0.06):
                h = self.pick([24, 25, 99])
            if self.chance(0.06):
                mi = self.pick([60, 75])
            if self.chance(0.06):
                s = self.pick([61, 99])
            off = self.pick(["Z"] * 5 + ["+00:00", "-23:59", "+09:00", "-01:30", "", "+0900", "z+", "+09", "Z0", "+23:60"])
            t = "%04d-%02d-%02dT%02d:%02d:%02d%s%s" % (y, mo, d, h, mi, s, self.pick(["", "", ".5", ".123456789", ".000", "."]), off)
            if self.chance(0.12):
                t = t.replace("T", self.pick([" ", "", "TT"]))
            return self.mutate(t, "0123456789-:TZ") if self.chance(0.15) else t
        if f == "hostname":
            labs = []
            for _ in range(r.randint(1, 4)):
                n = self.pick([1, 2, 3, 5, 62, 63, 64])
                l = "".join(self.pick("abzAZ019_") for _ in range(n))
                if n > 2 and self.chance(0.4):
                    k = r.randint(0, n - 1)
                    l = l[:k] + "-" + l[k + 1:]
                labs.append(l)
            t = ".".join(labs) + (self.pick(["", "", ".", ".."]) if self.chance(0.3) else "")
            if self.chance(0.06):
                t = ".".join(["a" * 63] * 4)[: self.pick([253, 254, 255])] + self.pick(["", "b", "bb"])
            if self.chance(0.1):
                t = "".join(self.pick("0123456789.") for _ in range(r.randint(1, 6)))
            return self.mutate(t, "ab1-._ /é") if self.chance(0.25) else t
        if f == "ipv4":
            t = ".".join(str(self.pick([0, 1, 9, 10, 99, 100, 127, 199, 200, 249, 250, 254, 255, 255, 256, 260, 300, 999][: self.pick([15, 15, 15, 18])]))
                         for _ in range(self.pick([4, 4, 4, 4, 4, 3, 5])))
            return self.mutate(t, "0123456789.a: ") if self.chance(0.3) else t
        if f == "ipv6":
            n = self.pick([8, 8, 8, 7, 6, 3, 1, 9])
            g = ["".join(self.pick("0123456789abcdefABCDEF") for _ in range(self.pick([1, 2, 4, 4]))) for _ in range(n)]
            t = ":".join(g)
            if self.chance(0.5):
                k = r.randint(0, n)
                t = ":".join(g[:k]) + "::" + ":".join(g[k:])
            if self.chance(0.15):
                t = (t + ":" if not t.endswith(":") else t) + "1.2.3.4"
            if self.chance(0.05):
                t = self.pick(["::", "::1", ":", "1::", ":::", "1::2::3", "fe80::1%eth0", "1.2.3.4", "::ffff:1.2.3.4", "g::1", "12345::"])
            return self.mutate(t, "0123456789abcdefg:. ") if self.chance(0.2) else t
        if f == "email":
            atom = lambda: "".join(self.pick("abzAZ019!#$%&'*+-/=?^_`{|}~é") for _ in range(r.randint(1, 4)))
            t = ".".join(atom() for _ in range(self.pick([1, 1, 2]))) + "@" + ".".join(atom() for _ in range(self.pick([1, 2, 2, 3])))
            if self.chance(0.3):
                t = self.pick([t.replace("@", ""), t + "@b", "@" + t, t.replace("@", "@@"), "." + t, t + ".", t.replace("@", ".@"), t.replace("@", "@."), ""])
            return t
        if f == "uri":
            if self.chance(0.3):
                return self.pick(self.EDGES["uri"])
            seg = lambda: "".join(self.pick("abz019-_~é.") for _ in range(r.randint(0, 4)))
            t = self.pick(["http://", "https://", "ftp://", "mailto:", "/", "", "../", "//", "///", "HTTP://", "urn:", "a+b-c.d:", "1a:", "é:", "?", "a/"])
            if t.endswith("//") and self.chance(0.3):
                t += self.pick(["u@", "u:p@", "u:@", "@", "é@", "a@b@", "%41@", "%4@", "a b@"])
            t += self.pick(["a.com", "a", "b.c", "a:80", "a:", "a:8b", "a:1:2", "[::1]", "[::1]:80", "[1.2.3.4]", "[::1", "::1", "a b", "a%41", "a%C3", "a\"", "a{", "é", ""])
            if self.chance(0.8):
                t += "/" + "/".join(seg() for _ in range(r.randint(0, 3)))
            if self.chance(0.35):
                t += "/" + self.pick(["%41", "%zz", "%", "%4", "%C3%A9", "a%20b", "%G1", "a:b", "[", "{}", " "])
            if self.chance(0.1):
                t += self.pick(["\x7f", "\x01", "\n", "\t"])
            if self.chance(0.2):
                t += "?" + self.pick(["", "a=b", "%zz", "a:b", "?", "a b", "/"])
            if self.chance(0.2):
                t += "#" + self.pick(["", "a", "%zz", "%41", "a#b", ":", "/"])
            if self.chance(0.06):
                t = ":" + t
            return self.mutate(t, "ab:/@?#%[]. ") if self.chance(0.25) else t
        return self.word()

    def mutate(self, s, alphabet):
        if not s:
            return self.pick(alphabet)
        k = self.r.randrange(len(s))
        return self.pick([s[:k] + s[k + 1:], s[:k] + self.pick(alphabet) + s[k + 1:], s[:k] + self.pick(alphabet) + s[k:], s[:k]])

    # ------------------------------------------------- scalar constraints --
    def string_calls(self, n, default=False):
        calls = []
        for _ in range(n):
            m = self.pick(["MaxLength", "MinLength", "Regexp", "Enum", "Format"])
            calls.append(self.string_call(m))
        if default:
            calls.insert(self.r.randint(0, len(calls)), {"m": "Default", "v": S(self.word() if self.chance(0.8) else "")})
        return calls

    def string_call(self, m):
        r = self.r
        if self.raw and m == "Format":
            m = "Enum"
        if m in ("MaxLength", "MinLength"):
            return {"m": m, "n": self.pick([0, 1, 2, 3, 3, 4, 5, 8] + ([-1] if m == "MaxLength" else [0]))}
        if m == "Regexp":
            rx, src = self.regexp()
            return {"m": m, "rx": rx, "src": src, "via": self.chance(0.5)}
        if m == "Enum":
            vs = [S(self.word()) for _ in range(r.randint(0, 4))]
            if self.chance(0.2):
                vs.append(self.scalar())
            if self.chance(0.1) and vs:
                vs.append(vs[0])
            return {"m": m, "vs": vs}
        if m == "Format":
            return {"m": m, "f": self.pick(self.FORMATS * 2 + ["", "regex", "unknown", "IPV4", "style"])}
        raise AssertionError(m)

    def number_calls(self, n, default=False, integer=False):
        calls = []
        for _ in range(n):
            m = self.pick(["Minimum", "Maximum", "Minimum", "Maximum", "ExclusiveMinimum", "ExclusiveMaximum", "MultipleOf", "Enum"])
            calls.append(self.number_call(m))
        if default:
            q = self.q() if self.chance(0.85) else 0
            if integer and self.idiv and self.idiv <= 1 << 20:
                q = self.r.randint(-5, 5) * self.idiv
            calls.insert(self.r.randint(0, len(calls)), {"m": "Default", "v": {k: x for k, x in self.num(q).items() if k != "nm"}})
        return calls

    def number_call(self, m):
        if m in ("Minimum", "Maximum"):
            return {"m": m, "q": self.q()}
        if m in ("ExclusiveMinimum", "ExclusiveMaximum"):
            return {"m": m, "b": self.chance(0.75)}
        if m == "MultipleOf":
            one = self.idiv if 0 < self.idiv <= 1 << 26 else 1
            return {"m": m, "q": self.pick([0, 1, 2, 3, one, 2 * one, 3 * one, -2 * one, 5 * one, 7, one + 1])}
        if m == "Enum":
            vs = [self.num() for _ in range(self.r.randint(0, 4))]
            if self.chance(0.2):
                vs.append(self.scalar())
            return {"m": m, "vs": vs}
        raise AssertionError(m)

    def last(self, node, m):
        l = [c for c in node["calls"] if c["m"] == m]
        return l[-1] if l else None

    # --------------------------------------------------------- constraints --
    def leaf(self, default=False):
        k = self.r.random()
        d = default and self.chance(0.5)
        if k < 0.3:
            return {"k": "string", "calls": self.string_calls(self.pick([0, 1, 1, 2]), d)}
        if k < 0.45:
            return {"k": "number", "calls": self.number_calls(self.pick([0, 1, 1, 2]), d)}
        if k < 0.65:
            return {"k": "integer", "calls": self.number_calls(self.pick([0, 1, 1, 2]), d, True)}
        if k < 0.77:
            calls = [{"m": "Default", "v": B(self.chance(0.5))}] if d else []
            if self.chance(0.15):
                calls.append({"m": "Enum", "vs": [self.scalar() for _ in range(self.r.randint(0, 2))] + [B(self.chance(0.5))]})
            return {"k": "bool", "calls": calls}
        if k < 0.84:
            return {"k": "null", "calls": []}
        if k < 0.92:
            return dict(EMPTY)
        return {"k": "enum", "calls": [{"m": "Enum", "vs": [self.jsonv(1) if self.chance(0.5) else self.scalar() for _ in range(self.r.randint(0, 3))]}]}

    def norefs(self, f):
        """below any, oneOf and not: a rejecting child must not leave defaults"""
        saved, self.refs = self.refs, []
        try:
            return f()
        finally:
            self.refs = saved

    def cons(self, d=2, default=False, kinds=None):
        k = self.pick(kinds) if kinds else None
        if k is None:
            if d <= 0 or self.chance(0.35):
                k = "leaf"
            else:
                k = self.pick(["object", "object", "array", "array", "any", "all", "oneof", "not", "reduce"])
            if self.refs and self.chance(0.12):
                k = "ref"
        if k == "leaf":
            return self.leaf(default)
        if k == "ref":
            return {"k": "ref", "calls": [{"m": "RefersTo", "name": self.pick(self.refs)}]}
        if k == "object":
            return self.object(d, default)
        if k == "array":
            return self.array(d, default)
        if k == "all":
            return {"k": "all", "calls": [{"m": "Add", "c": self.cons(d - 1, default)} for _ in range(self.pick([0, 1, 2, 2, 3]))]}
        if k in ("any", "oneof"):
            if default and self.chance(0.3):
                # alternatives of different types: a failing one cannot leave defaults behind
                l = [self.object(d - 1, True), self.leaf_of(["string", "number", "bool", "null"])]
                self.r.shuffle(l)
                return {"k": k, "calls": [{"m": "Add", "c": c} for c in l]}
            return self.norefs(lambda: {"k": k, "calls": [{"m": "Add", "c": self.cons(d - 1)} for _ in range(self.pick([0, 1, 2, 2, 3]))]})
        if k == "not":
            return self.norefs(lambda: {"k": "not", "calls": [], "c": NILC if self.chance(0.05) else self.cons(d - 1)})
        if k == "reduce":
            kk = self.pick(["any", "all", "oneof"])
            n = self.pick([0, 1, 1, 2])
            make = lambda: {"k": "reduce", "calls": [], "c": {"k": kk, "calls": [{"m": "Add", "c": self.cons(d - 1, default and (kk == "all" or n == 1))} for _ in range(n)]}}
            return make() if kk == "all" or n == 1 else self.norefs(make)
        raise AssertionError(k)

    def leaf_of(self, kinds):
        k = self.pick(kinds)
        if k == "string":
            return {"k": k, "calls": self.string_calls(self.pick([0, 1]))}
        if k in ("number", "integer"):
            return {"k": k, "calls": self.number_calls(self.pick([0, 1]))}
        return {"k": k, "calls": []}

    def array(self, d=1, default=False):
        n = {"k": "array", "calls": []}
        for _ in range(self.pick([0, 1, 2, 3, 3])):
            n["calls"].append(self.array_call(d, default))
        return n

    def array_call(self, d, default=False):
        m = self.pick(["MinItems", "MaxItems", "UniqueItems", "Items", "PositionalItems", "PositionalItems", "AdditionalItems", "AdditionalItems"])
        if m in ("MinItems", "MaxItems"):
            return {"m": m, "n": self.pick([-1, 0, 1, 2, 2, 3, 4])}
        if m == "UniqueItems":
            return {"m": m, "b": self.chance(0.8)}
        if m == "Items":
            return {"m": m, "c": NILC if self.chance(0.25) else self.cons(d - 1, default)}
        if m == "PositionalItems":
            return {"m": m, "cs": [self.cons(d - 1, default) for _ in range(self.pick([0, 1, 2, 2, 3]))]}
        return {"m": m, "c": NILC if self.chance(0.4) else self.cons(d - 1, default)}

    def object(self, d=2, default=False):
        n = {"k": "object", "calls": []}
        calls = n["calls"]
        for nm in self.some_names(0, 4):
            calls.append({"m": "AddProp", "n": nm, "c": self.cons(d - 1, default)})
        if self.chance(0.5):
            ns = self.some_names(0, 2)
            calls.append({"m": "Required", "ns": ns})
            if self.chance(0.2):
                calls.append({"m": "Required", "ns": self.some_names(0, 2)})
        npat = self.pick([0, 0, 0, 1, 1, 2])
        for _ in range(npat):
            rx, src = self.regexp()
            calls.append({"m": "PatternProperties", "rx": rx, "src": src, "via": self.chance(0.5), "c": self.cons(d - 1, default and npat == 1)})
        k = self.r.random()
        if k < 0.45:
            calls.append({"m": "AdditionalProperties", "c": dict(EMPTY)})
        elif k < 0.75:
            calls.append({"m": "AdditionalProperties", "c": self.cons(d - 1, default)})
        elif k < 0.8:
            calls.append({"m": "AdditionalProperties", "c": NILC})
        pdep = set()
        if self.chance(0.25):
            for nm in self.some_names(1, 2):
                pdep.add(tuple(nm))
                calls.append({"m": "PropDependency", "n": nm, "ns": self.some_names(0, 2)})
                if self.chance(0.4):                    # dependencies add up
                    calls.append({"m": "PropDependency", "n": nm, "ns": self.some_names(0, 2)})
        if self.chance(0.2) and d > 0:
            ns = [x for x in self.some_names(1, 2) if self.both or tuple(x) not in pdep]
            withd = default and len(ns) == 1
            for nm in ns:
                calls.append({"m": "SchemaDependency", "n": nm, "c": self.cons(d - 1, withd, ["object", "object", "leaf"])})
        if self.chance(0.25):
            calls.append({"m": "MinProperties", "n": self.pick([-1, 0, 1, 2])})
        if self.chance(0.25):
            calls.append({"m": "MaxProperties", "n": self.pick([-1, 0, 1, 2, 3, 4])})
        if self.chance(0.15) and calls:
            c = self.pick(calls)
            if c["m"] == "AddProp":                     # replace a property's constraint
                calls.append({"m": "AddProp", "n": c["n"], "c": self.cons(d - 1, default)})
        self.r.shuffle(calls)
        return n

    def safe_object(self, default):
        """an object whose references are only below properties"""
        n = {"k": "object", "calls": []}
        for nm in self.some_names(1, 4):
            n["calls"].append({"m": "AddProp", "n": nm, "c": self.cons(1, default, ["leaf", "leaf", "ref"] if self.refs else ["leaf"])})
        if self.chance(0.3):
            n["calls"].append({"m": "Required", "ns": self.some_names(0, 2)})
        if self.chance(0.6):
            n["calls"].append({"m": "AdditionalProperties", "c": dict(EMPTY)})
        return n

    # ------------------------------------------------- values that fit -----
    def fit(self, c, heap=(), refs=(), d=4):
        """a value that probably satisfies c"""
        if "id" in c:
            return self.fit(heap[c["id"] - 1], heap, refs, d) if c["id"] and heap else self.value(1)
        k = c["k"]
        if d <= 0:
            return self.value(0)
        L = lambda m: self.last(c, m)
        if k == "string":
            if L("Enum") and L("Enum")["vs"] and self.chance(0.8):
                return self.pick(L("Enum")["vs"])
            if L("Regexp") and self.chance(0.7):
                s = self.rx_string(L("Regexp")["rx"])
            elif L("Format") and self.chance(0.8):
                s = self.fmt_string(L("Format")["f"])
            else:
                s = self.word()
                lo = L("MinLength")["n"] if L("MinLength") else 0
                hi = L("MaxLength")["n"] if L("MaxLength") else 9
                if self.chance(0.8) and hi >= lo >= 0:
                    n = self.pick([lo, hi, lo, hi, lo - 1, hi + 1])
                    s = (s + "aé日😀bcdefgh")[:max(n, 0)]
            v = S(s)
            if self.chance(0.07):
                v = {"t": "ptr", "to": v}
            elif self.chance(0.05):
                v["nm"] = True
            return v
        if k in ("number", "integer"):
            if L("Enum") and L("Enum")["vs"] and self.chance(0.7):
                e = self.pick(L("Enum")["vs"])
                if e["t"] == "num":
                    return self.num(e["q"], floats=k == "number")
                return e
            q = self.q()
            one = self.idiv if 0 < self.idiv <= 1 << 26 else 1
            step = L("MultipleOf")["q"] if L("MultipleOf") and L("MultipleOf")["q"] and self.chance(0.6) else (one if k == "integer" and self.idiv else 1)
            if L("Minimum") and self.chance(0.6):
                q = L("Minimum")["q"] + self.pick([0, 0, step, -step, 1, -1, one])
            elif L("Maximum") and self.chance(0.8):
                q = L("Maximum")["q"] + self.pick([0, 0, step, -step, 1, -1, -one])
            if self.chance(0.4) and step:
                q = q - q % step
            if k == "integer" and self.idiv and self.chance(0.6):
                q = q - q % self.idiv
            v = self.num(q, floats=k == "number" and self.chance(0.9))
            if self.chance(0.07):
                v = {"t": "ptr", "to": v}
            return v
        if k == "bool":
            return B(self.chance(0.5))
        if k == "null":
            return self.pick([NIL, NIL, NIL, {"t": "nilof", "g": "map"}, {"t": "nilof", "g": "slice"}])
        if k in ("empty", "alien"):
            return self.value(1)
        if k == "enum":
            vs = L("Enum")["vs"] if L("Enum") else []
            return self.pick(vs) if vs else self.value(1)
        if k in ("any", "oneof", "all"):
            kids = [x["c"] for x in c["calls"] if x["m"] == "Add"]
            return self.fit(self.pick(kids), heap, refs, d - 1) if kids else self.value(1)
        if k == "not":
            return self.value(1)
        if k == "reduce":
            return self.fit(c["c"], heap, refs, d)
        if k == "ref":
            n = L("RefersTo")["name"] if L("RefersTo") else None
            t = [r for r in refs if r["n"] == n]
            return self.fit(t[-1]["c"], heap, refs, d - 1) if t else self.value(1)
        if k == "array":
            lo = max(L("MinItems")["n"], 0) if L("MinItems") else 0
            hi = L("MaxItems")["n"] if L("MaxItems") and L("MaxItems")["n"] >= 0 else 4
            n = self.pick([lo, hi, lo + 1, hi, self.r.randint(0, 4)])
            if self.chance(0.1):
                n = self.pick([lo - 1, hi + 1])
            items = L("Items")["c"] if L("Items") and L("Items")["c"] != NILC else None
            pos = L("PositionalItems")["cs"] if L("PositionalItems") else []
            add = L("AdditionalItems")["c"] if L("AdditionalItems") else None
            uniq = L("UniqueItems") and L("UniqueItems")["b"]
            e = []
            for i in range(max(n, 0)):
                rule = items or (pos[i] if i < len(pos) else add)
                if rule is None or rule == NILC or self.chance(0.06):
                    x = self.jsonv(1) if uniq else self.value(1)
                else:
                    x = self.fit(rule, heap, refs, d - 1)
                e.append(x)
            if uniq:
                e = [x for x in e if self.plain(x)]
            if e and self.chance(0.15):
                e.append(self.pick(e))
            return {"t": "arr", "g": "any", "e": e}
        if k == "object":
            props = {}
            want = [(x["n"], x["c"]) for x in c["calls"] if x["m"] == "AddProp"]
            req = [n for x in c["calls"] if x["m"] == "Required" for n in x["ns"]]
            for n, pc in want:
                if n in req or self.chance(0.6):
                    props[tuple(n)] = self.fit(pc, heap, refs, d - 1)
            for n in req:
                if tuple(n) not in props and self.chance(0.9):
                    props[tuple(n)] = self.value(1)
            declared = {tuple(n) for n, _ in want}
            pats = [x for x in c["calls"] if x["m"] == "PatternProperties"]
            for x in pats:
                if self.chance(0.5):
                    nm = tuple(cp(self.rx_string(x["rx"])[:6]))
                    if nm not in declared:
                        props[nm] = self.fit(x["c"], heap, refs, d - 1)
            add = L("AdditionalProperties")
            if add and add["c"] != NILC and self.chance(0.6):
                for n in self.some_names(0, 2):
                    if tuple(n) not in declared:
                        props.setdefault(tuple(n), self.fit(add["c"], heap, refs, d - 1))
            for x in c["calls"]:
                if x["m"] == "PropDependency" and tuple(x["n"]) in props and self.chance(0.7):
                    for n in x["ns"]:
                        props.setdefault(tuple(n), self.value(1))
                if x["m"] == "SchemaDependency" and tuple(x["n"]) in props and self.chance(0.5):
                    y = self.fit(x["c"], heap, refs, d - 1)
                    if y["t"] == "obj":
                        for p in y["p"]:
                            props.setdefault(tuple(p["n"]), p["v"])
            if self.chance(0.12):
                props[tuple(self.name())] = self.value(1)
            if props and self.chance(0.12):
                del props[self.pick(sorted(props))]
            items = sorted(props.items())
            self.r.shuffle(items)
            v = self.obj([(list(n), x) for n, x in items], self.pick(["any"] * 8 + ["named", "nkey"]))
            if self.chance(0.06):
                v = {"t": "ptr", "to": v}
            return v
        raise AssertionError(k)

    # ----------------------------------------------------------- structs --
    MK = {"string": ["String", "String", "String", "Time"], "number": ["Float", "Float", "Float", "Int"],
          "integer": ["Int", "Uint", "Float"], "bool": ["Bool"]}
    TIMES = ["2015-12-31T23:59:59Z", "2000-02-29T00:00:00Z", "1999-01-01T12:30:45.5Z"]

    def whole(self, nonneg=False):
        one = self.idiv if self.idiv else 1
        return self.r.randint(0 if nonneg else -6, 6) * one

    def maybe_value(self, mk, c=None):
        fit = self.fit(c) if c and self.chance(0.7) else None
        if mk in ("Own", "Shared"):
            while not fit or fit["t"] not in ("str", "num", "arr", "obj", "bool"):
                fit = self.value(1)
            return fit
        if mk == "String":
            return S("".join(map(chr, fit["s"])) if fit and fit["t"] == "str" else self.word())
        if mk == "Bool":
            return B(self.chance(0.5))
        if mk == "Time":
            return {"t": "time", "s": cp(self.pick(self.TIMES))}
        q = fit["q"] if fit and fit["t"] == "num" else self.q()
        if mk == "Float":
            return {"t": "num", "g": "f64", "q": q}
        if self.idiv == 0 or q % self.idiv or abs(q) > 1 << 30 or mk == "Uint" and q < 0:
            q = self.whole(mk == "Uint")
        return {"t": "num", "g": "i64" if mk == "Int" else "u64", "q": q}

    def field(self, i, nm, c, depth=2):
        """a field that stands for the property nm (constraint c, or None)"""
        go = self.pick("ABCDEFGHX") + str(i)
        text = "".join(map(chr, nm))
        f = {"go": cp(go), "tag": nm, "exp": True, "emb": False, "maybe": False, "valid": False, "mk": "", "ptr": False, "nilp": False, "any": False, "v": NIL}
        if not nm:
            f["tag"] = cp(self.pick(["", ",omitempty"]))
        elif self.chance(0.35):
            f["tag"] = nm + cp(self.pick([",omitempty", ",", ",string", ",omitempty,string"]))
        elif self.chance(0.06):
            f["tag"] = cp("-,")
        kind = c["k"] if c and "k" in c else None
        if kind in self.MK and self.chance(0.65) or self.chance(0.2):
            f["maybe"] = True
            f["mk"] = self.pick(self.MK.get(kind, ["String", "Int", "Uint", "Float", "Bool", "Time"]))
            dv = self.last(c, "Default") if c and "calls" in c else None
            if f["mk"] == "Uint" and (kind not in self.MK or dv and dv["v"].get("q", 0) < 0):
                f["mk"] = "Int"                # -1 has no unsigned form
            if self.chance(0.12):
                f["mk"] = self.pick(["Own", "Own", "Shared"])
            f["valid"] = self.chance(0.5)
            f["ptr"] = self.chance(0.3) and f["mk"] != "Shared"
            if f["ptr"] and f["mk"] not in ("Int", "Uint", "Float") and self.chance(0.3):
                f["ifc"] = True                # the field is declared as the interface
            if f["ptr"] and not f["valid"]:
                f["nilp"] = self.chance(0.6)
            if f["valid"]:
                f["v"] = self.maybe_value(f["mk"], c)
            return f
        v = self.fit(c, d=depth) if c and self.chance(0.8) else self.value(1)
        if kind == "object" and depth > 1 and self.chance(0.5):
            v = self.struct(c, depth - 1)
        f["any"] = self.chance(0.3)
        f["v"] = v
        return f

    def struct(self, c, depth=2, wrap=True):
        """a struct for the object constraint c"""
        props, extra = {}, []
        for x in c["calls"]:
            if x["m"] == "AddProp":
                props[tuple(x["n"])] = x["c"]
            elif x["m"] == "PatternProperties" and self.chance(0.5):
                extra.append((tuple(cp(self.rx_string(x["rx"])[:5])), x["c"]))
            elif x["m"] == "AdditionalProperties" and x["c"] != NILC and self.chance(0.6):
                extra += [(tuple(n), x["c"]) for n in self.some_names(0, 2)]
            elif x["m"] == "Required":
                extra += [(tuple(n), None) for n in x["ns"]]
        for n, pc in extra:
            props.setdefault(n, pc)
        bad = set(map(ord, ",\n\t`\x00"))
        cand = [(list(n), pc) for n, pc in sorted(props.items()) if not bad & set(n) and n != (45,)]
        self.r.shuffle(cand)
        cand = [x for x in cand if self.chance(0.85)]
        if self.chance(0.15):
            cand.append((cp("Zz%d" % self.r.randint(0, 9)), None))
        self.nfield = getattr(self, "nfield", 0)
        used = set()
        fs = self.fields(cand, used, depth)
        if self.chance(0.35) and depth > 0:
            # move some fields to an embedded struct; some of them are hidden there
            k = self.r.randint(0, len(fs))
            inner, outer = fs[:k], fs[k:]
            hid = [dict(f, go=cp("Hid%d" % i)) for i, f in enumerate(outer) if self.chance(0.3)]
            for h in hid:
                h.pop("ifc", None)
                h["v"], h["maybe"], h["valid"], h["mk"], h["ptr"], h["nilp"] = S("hidden"), False, False, "", False, False
            # hidden only if the outer name comes from the tag, so that both have the same name
            hid = [h for h in hid if h["tag"] and h["tag"][0] != 44]
            emb = {"go": cp("Emb"), "tag": [], "exp": True, "emb": True, "maybe": False, "valid": False, "mk": "", "ptr": self.chance(0.3) and wrap,
                   "nilp": False, "any": False, "v": {"t": "struct", "f": inner + hid}}
            k = self.r.random()
            if k < 0.1:
                emb["tag"] = cp(self.pick(["e", "-", "emb", "e,omitempty"]))
                emb["ptr"] = False
            elif k < 0.3 and (inner or hid):
                # the same names once more, further down
                low = [dict(f, go=cp("Low%d" % i), v=S("low"), maybe=False, valid=False, mk="", ptr=False, nilp=False, any=False) for i, f in enumerate(inner + hid) if self.chance(0.6) and f["tag"] and f["tag"][0] != 44]
                for f in low:
                    f.pop("ifc", None)
                deep = dict(emb, go=cp("Deep"), ptr=False, v={"t": "struct", "f": [dict(emb, go=cp("Deeper"), ptr=False, v={"t": "struct", "f": low})]})
                outer = outer + [deep]
            if emb["ptr"] and self.chance(0.3):
                emb["nilp"] = True
            fs = outer + [emb]
            self.r.shuffle(fs)
        if self.chance(0.2):
            fs.append({"go": cp("hidden"), "tag": cp("a") if self.chance(0.5) else [], "exp": False, "emb": False, "maybe": False, "valid": False, "mk": "",
                       "ptr": False, "nilp": False, "any": False, "v": S("x")})
        if self.chance(0.2):
            fs.append({"go": cp("Skip"), "tag": cp("-"), "exp": True, "emb": False, "maybe": False, "valid": False, "mk": "", "ptr": False, "nilp": False,
                       "any": False, "v": S("x")})
        v = {"t": "struct", "f": fs}
        if any(f["emb"] and f["ptr"] for f in fs) or wrap and self.chance(0.8):
            v = {"t": "ptr", "to": v}
        return v

    # the declared types of driver/lib/hook.go: go name, tag, kind of Maybe (None: interface{}), pointer
    DECLARED = {"1": [("A", "a", "String", 0), ("B", "b", "Int", 0)], "2": [("A", "b", "String", 0), ("B", "a", "Int", 0)],
                "3": [("B", "b,omitempty", "Int", 0), ("A", "a", "String", 0), ("C", "c", None, 0)], "4": [("A", "a", None, 0), ("B", "c", "Float", 0)],
                "5": [("A", "-", "Bool", 0), ("B", "b", "Uint", 1), ("C", "", None, 0)], "6": [("A", "a", "String", 1), ("B", "", "Int", 0)]}
    HOOKF = [("A", "a", None, 0), ("B", "b", "String", 0), ("C", "c", "Int", 1)]

    def of_type(self, fields, c, depth=1):
        """fields of a fixed type, for the object constraint c"""
        props = {tuple(x["n"]): x["c"] for x in c["calls"] if x["m"] == "AddProp"}
        fs = []
        for go, tag, mk, ptr in fields:
            f = dict(BLANK, go=cp(go), tag=cp(tag), maybe=bool(mk), mk=mk or "", ptr=bool(ptr), any=not mk)
            pc = props.get(tuple(cp(tag.split(",")[0] or go)))
            if mk:
                f["valid"] = self.chance(0.5)
                if mk == "Uint" and pc:        # a default of -1 has no unsigned form
                    dv = self.last(pc, "Default") if "calls" in pc else None
                    f["valid"] = f["valid"] or "calls" not in pc or pc["k"] not in self.MK or bool(dv) and dv["v"].get("q", 0) < 0
                f["nilp"] = bool(ptr) and not f["valid"] and self.chance(0.6)
                if f["valid"]:
                    f["v"] = self.maybe_value(mk, pc if pc and pc["k"] in self.MK and mk in self.MK[pc["k"]] else None)
            else:
                f["v"] = self.fit(pc, d=depth) if pc and self.chance(0.8) else self.value(1)
            fs.append(f)
        return fs

    NILS = [{"t": "nilof", "g": "ptr"}, {"t": "nilof", "g": "ptr", "x": "struct"}, {"t": "nilof", "g": "map"}, {"t": "nilof", "g": "slice"}]

    def hook(self, c, depth=1):
        """a struct with property methods for the object constraint c; what the methods say is consistent"""
        props = {}
        for x in c["calls"]:
            if x["m"] == "AddProp":
                props[tuple(x["n"])] = x["c"]
            elif x["m"] == "PatternProperties" and self.chance(0.5):
                props.setdefault(tuple(cp(self.rx_string(x["rx"])[:5])), x["c"])
            elif x["m"] == "AdditionalProperties" and x["c"] != NILC and self.chance(0.6):
                for n in self.some_names(0, 2):
                    props.setdefault(tuple(n), x["c"])
            elif x["m"] == "Required":
                for n in x["ns"]:
                    props.setdefault(tuple(n), None)
        f = self.of_type(self.HOOKF, c, depth)
        hn, hv, hs = self.chance(0.6), self.chance(0.7), self.chance(0.5)
        fields = {tuple(x["tag"]): x for x in f}
        have = [n for n, x in sorted(fields.items()) if not x["maybe"] or x["valid"]]
        nerr = hn and self.chance(0.2)
        if hv and (not hn or nerr) and "SchemaDependency" in json.dumps(c):
            hs = False                         # a default would be known to one method only
        vals = []
        if hv:
            for n, pc in sorted(props.items()):
                if (not hn or nerr) and n not in have:
                    continue                   # it would be known to one method only
                if self.chance(0.3):
                    continue
                x = self.field(0, list(n), pc, depth)
                if x["v"] == NIL and not x["maybe"] or x["maybe"] and not x["valid"] and not (hs and hn and not nerr):
                    continue
                if x["maybe"] and not x["valid"]:
                    x["nilp"] = False
                if not x["maybe"] and self.chance(0.08):
                    x["v"], x["ptr"] = self.pick(self.NILS), False
                x["any"], x["tag"] = False, []
                vals.append({"n": list(n), "f": x})
        known = {tuple(x["n"]): x["f"] for x in vals}
        names = [list(n) for n, x in known.items() if not x["maybe"] or x["valid"]] + [list(n) for n in have if n not in known]
        self.r.shuffle(names)
        v = {"t": "hook", "hn": hn, "hv": hv, "hs": hs, "nerr": nerr, "serr": hs and self.chance(0.2), "pns": names, "vals": vals, "f": f}
        return {"t": "ptr", "to": v} if self.chance(0.7) else v

    def fields(self, cand, used, depth):
        fs = []
        for n, pc in cand:
            f = self.field(self.nfield, n, pc, depth)
            self.nfield += 1
            nm = "".join(map(chr, f["tag"])).split(",")[0] or "".join(map(chr, f["go"]))
            if nm in used:
                continue
            used.add(nm)
            fs.append(f)
        return fs

    def plain(self, v):
        """only JSON values inside (what uniqueItems and enumerations compare)"""
        if v["t"] == "arr":
            return all(self.plain(x) for x in v["e"])
        if v["t"] == "obj":
            return v["g"] == "any" and all(self.plain(x["v"]) for x in v["p"])
        return v["t"] in ("nil", "bool", "num", "str")

    def some(self, v):
        return {"t": "bool", "b": True} if v == NIL else v

    def clean(self, v, top=True):
        """what enumerations and uniqueItems compare: plain JSON below the top"""
        t = v["t"]
        if t == "arr":
            return dict(v, e=[self.clean(x, False) for x in v["e"]])
        if t == "obj":
            return dict(v, g="any" if v["g"] == "nkey" else v["g"],
                        p=[dict(x, v=self.clean(x["v"], False)) for x in v["p"]])
        if t == "ptr" and top:
            return dict(v, to=self.clean(v["to"]))
        if t == "struct" and top:
            return dict(v, f=[dict(x, v=self.clean(x["v"])) for x in v["f"]])
        if t == "hook":
            return dict(v, f=[dict(x, v=self.clean(x["v"])) for x in v["f"]],
                        vals=[dict(x, f=dict(x["f"], v=self.some(self.clean(x["f"]["v"])) if not x["f"]["maybe"] else x["f"]["v"])) for x in v["vals"]])
        if t == "nilof" and v["g"] in ("map", "slice") or not top and t in ("ptr", "nilof", "other", "struct", "time"):
            return NIL
        return v

def compares(x):
    """does this constraint compare values anywhere?"""
    if isinstance(x, dict):
        if x.get("k") == "enum" or x.get("m") in ("Enum", "UniqueItems"):
            return True
        return any(compares(y) for k, y in x.items() if k in ("calls", "c", "cs"))
    if isinstance(x, list):
        return any(compares(y) for y in x)
    return False

def beh(i, g, heap, ev, refs=()):
    return {"id": i, "sh": g.sh, "idiv": g.idiv, "heap": heap, "refs": list(refs), "ev": ev}
