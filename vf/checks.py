"""One function per property."""
import json, random, re
from .gen import *
from . import cli, srv, wide, big
from .schema import SGen, schema_case, strip

def rng(run, salt):
    return random.Random("%s-%s-%s" % (run.prop, run.seed, salt))

def cons_check(run, cases, mode="cons"):
    for i, c in enumerate(cases):
        c["id"] = i + 1
    traces = run.drive(mode, cases)
    stats(run, traces)
    run.reject("TrCons", run.validate("TrCons", traces), mode)

def stats(run, traces):
    a = r = d = 0
    for t in traces:
        for e in t["ev"]:
            if e.get("e") == "val":
                a += e["ok"]
                r += not e["ok"]
                d += e["ch"]
    s = run.cov.setdefault("verdicts", {"accepted": 0, "rejected": 0, "changed_input": 0})
    s["accepted"] += a
    s["rejected"] += r
    s["changed_input"] += d
    run.log("verdicts: %d accepted, %d rejected, %d inputs changed" % (a, r, d))

def val(c, v):
    return {"e": "val", "c": c, "v": v}

ROOT = {"id": 1}


def mutations(g, node, make, n, extra=None):
    """a validation history on the object node: validations mixed with a few
    configuration calls, which make(node) produces"""
    ev, init = [], node
    node = dict(node, calls=list(node["calls"]))
    for _ in range(n):
        k = g.r.random()
        if k < 0.78:
            v = g.fit(node)
        else:
            v = g.value(2, 0.25)
        if extra and g.chance(0.2):
            v = extra()
        if compares(node):
            v = g.clean(v)
        ev.append(val(ROOT, v))
        if make and g.chance(0.06):
            c = make()
            if compares(c) and not compares(node):
                pass
            ev.append({"e": "call", "o": 1, "call": c})
            node["calls"].append(c)
    return ev

# ------------------------------------------------------------------- C01 ----
STRING = ["MaxLength", "MinLength", "Regexp", "Enum", "Format"]
NUMBER = ["Minimum", "Maximum", "ExclusiveMinimum", "ExclusiveMaximum", "MultipleOf", "Enum"]

def gen_string(r, n):
    for _ in range(n):
        g = Gen(r, 0)
        node = {"k": "string", "calls": g.string_calls(g.pick([0, 1, 1, 2, 2, 3, 4, 6]))}
        yield beh(0, g, [node], mutations(g, node, lambda: g.string_call(g.pick(STRING)), 12, lambda: S(g.word())))

def gen_number(r, n):
    for _ in range(n):
        g = Gen(r)
        k = g.pick(["number", "integer"])
        node = {"k": k, "calls": g.number_calls(g.pick([0, 1, 2, 2, 3, 4, 6]))}
        yield beh(0, g, [node], mutations(g, node, lambda: g.number_call(g.pick(NUMBER)), 12, lambda: g.num()))

def gen_combo(r, n):
    for _ in range(n):
        g = Gen(r)
        node = g.cons(g.pick([1, 2, 2, 3]), False, ["any", "all", "oneof", "not", "reduce", "leaf"])
        make = (lambda: {"m": "Add", "c": g.cons(1)}) if node["k"] in ("any", "all", "oneof") else None
        ev = mutations(g, node, make, 10)
        if compares(node):
            for e in ev:
                if e["e"] == "val":
                    e["v"] = g.clean(e["v"])
        yield beh(0, g, [node], fixclean(g, [node], ev))

def fixclean(g, heap, ev, refs=()):
    """values stay plain where anything may compare them"""
    if compares(list(heap)) or compares([x["c"] for x in refs]) or any(compares(e.get("call")) for e in ev):
        for e in ev:
            if e["e"] == "val":
                e["v"] = g.clean(e["v"])
    return ev

def gen_array(r, n):
    for _ in range(n):
        g = Gen(r)
        node = g.array(g.pick([1, 1, 2]))
        ev = mutations(g, node, lambda: g.array_call(1), 10)
        yield beh(0, g, [node], fixclean(g, [node], ev))

def gen_object(r, n, default=False, sh=None):
    for _ in range(n):
        g = Gen(r, sh)
        node = g.object(g.pick([1, 2, 2, 3]), default)
        ev = mutations(g, node, lambda: g.pick([{"m": "Required", "ns": g.some_names(0, 1)}, {"m": "AddProp", "n": g.name(), "c": g.leaf(default)},
                                                {"m": "MinProperties", "n": g.pick([-1, 0, 1])}, {"m": "MaxProperties", "n": g.pick([-1, 2, 3])}]), 10)
        yield beh(0, g, [node], fixclean(g, [node], ev))

def with_refs(g, k, default):
    """registrations: leaves, objects, chains, recursion through a property"""
    names = [cp(x) for x in g.r.sample(["#", "#/definitions/a", "b", "self", "x y", ""], k)]
    g.refs = names
    refs = []
    for i, n in enumerate(names):
        kind = g.pick(["leaf", "object", "object", "array", "ref"])
        if kind == "ref" and i > 0:
            refs.append({"n": n, "c": {"k": "ref", "calls": [{"m": "RefersTo", "name": names[g.r.randrange(i)]}]}})
            continue
        saved = g.refs
        g.refs = []                      # below a combinator a reference could lead straight back
        if kind in ("leaf", "ref"):
            c = g.leaf(default)
        else:
            g.refs = names if kind == "object" else names[:i]
            c = g.safe_object(default) if kind == "object" else {"k": "array", "calls": [{"m": "Items", "c": g.pick([g.leaf(default), {"k": "ref", "calls": [{"m": "RefersTo", "name": g.pick(names)}]}])}]}
        g.refs = saved
        refs.append({"n": n, "c": c})
    return refs

def gen_defaults(r, n):
    for _ in range(n):
        g = Gen(r)
        refs = with_refs(g, g.pick([0, 0, 1, 2, 3]), True)
        node = g.cons(g.pick([1, 2, 2, 3]), True, ["object", "object", "object", "array", "all"])
        ev = []
        for _ in range(10):
            v = g.fit(node, (), refs) if g.chance(0.9) else g.value(2)
            if v["t"] == "obj" and g.chance(0.15):
                v = g.pick([{"t": "nilof", "g": "map"}, g.obj([(x["n"], g.typed("str")) for x in v["p"]], "str"),
                            g.obj([(x["n"], g.typed("int")) for x in v["p"]], "int"), g.obj([(x["n"], g.typed("f64")) for x in v["p"]], "f64"),
                            {"t": "ptr", "to": v}])
            ev.append(val(ROOT, v))
        ev.append({"e": "def", "c": ROOT})
        yield beh(0, g, [node], fixclean(g, [node], ev, refs), refs)

def gen_chains(r, n):
    """defaults at the end of chains of references, wherever such a chain can stand"""
    for _ in range(n):
        g = Gen(r, 0)
        names = [cp(x) for x in ["a", "b", "c", "d"]]
        refs = []
        for i in range(g.pick([2, 3, 4])):
            k = g.pick(["string", "integer", "bool", "object"])
            if k == "object":
                end = {"k": "object", "calls": [{"m": "AddProp", "n": cp("x"), "c": {"k": "string", "calls": [{"m": "Default", "v": S("in")}]}}, {"m": "AdditionalProperties", "c": {"k": "empty", "calls": []}}]}
            else:
                end = {"k": k, "calls": [{"m": "Default", "v": {"string": S(g.pick(["", "x", "d%d"])), "integer": {"t": "num", "g": "int", "q": g.pick([0, 7, -1])}, "bool": B(g.chance(0.5))}[k]}] if g.chance(0.85) else []}
            l = g.pick([1, 2, 2, 3, 4])
            for j in range(l):
                refs.append({"n": cp("r%d%d" % (i, j)), "c": end if j == l - 1 else {"k": "ref", "calls": [{"m": "RefersTo", "name": cp("r%d%d" % (i, j + 1))}]}})
        heads = [x["n"] for x in refs if chr(x["n"][2]) == "0"]
        to = lambda: {"k": "ref", "calls": [{"m": "RefersTo", "name": g.pick(heads)}]}
        node = {"k": "object", "calls": [{"m": "AddProp", "n": x, "c": to()} for x in names[:g.pick([1, 2, 3, 4])]] + [{"m": "AdditionalProperties", "c": {"k": "empty", "calls": []}}]}
        if g.chance(0.2):
            node["calls"].append({"m": "Required", "ns": g.r.sample(names, 1)})
        wrap = g.pick(["", "", "prop", "items", "pos", "all", "ref"])
        body = lambda: g.obj([(x, g.pick([S("v"), B(True), {"t": "num", "g": "f64", "q": 1}, NIL, g.obj([])])) for x in g.r.sample(names, g.pick([0, 0, 0, 1, 2]))])
        top, mk = node, body
        if wrap == "prop":
            top, mk = {"k": "object", "calls": [{"m": "AddProp", "n": cp("p"), "c": node}]}, lambda: g.obj([(cp("p"), body())])
        elif wrap in ("items", "pos"):
            top = {"k": "array", "calls": [{"m": "Items", "c": node} if wrap == "items" else {"m": "PositionalItems", "cs": [node, node]}]}
            mk = lambda: {"t": "arr", "g": "any", "e": [body() for _ in range(g.pick([1, 2]))]}
        elif wrap == "all":
            top = {"k": "all", "calls": [{"m": "Add", "c": node}, {"m": "Add", "c": {"k": "object", "calls": [{"m": "AdditionalProperties", "c": {"k": "empty", "calls": []}}]}}]}
        elif wrap == "ref":
            refs.append({"n": cp("top"), "c": node})
            top = {"k": "ref", "calls": [{"m": "RefersTo", "name": cp("top")}]}
        yield beh(0, g, [top], [val(ROOT, mk()) for _ in range(6)] + [{"e": "def", "c": ROOT}], refs)

def gen_struct(r, n):
    for _ in range(n):
        g = Gen(r, r.choice([-2, -2, 0, -4]))
        node = g.object(g.pick([1, 2, 2]), True)
        if compares(node) and g.chance(0.7):
            continue
        ev = []
        for _ in range(10):
            v = g.struct(node)
            ev.append(val(ROOT, v))
            if g.chance(0.3):
                ev.append(val(ROOT, v))
            if g.chance(0.15):
                ev.append(info(g, v))
        yield beh(0, g, [node], fixclean(g, [node], ev))

def info(g, v):
    """what the registry of struct information says about the type of v"""
    s = v["to"] if v["t"] == "ptr" else v
    def names(fs):
        for f in fs:
            yield from ([f["tag"], f["go"], list(bytes(f["tag"] if max(f["tag"], default=0) < 128 else b"").split(b",")[0])])
            if f["emb"]:
                yield from names(f["v"]["f"])
    l = [n for n in names(s["f"])] + [cp("nope"), []]
    return {"e": "info", "v": v, "twice": g.chance(0.5), "ask": l}

def gen_declared(r, n):
    """declared struct types, different ones of the same name"""
    for _ in range(n):
        g = Gen(r, r.choice([-2, 0]))
        g.names = [cp(x) for x in ["a", "b", "c", "C", "B"]]
        node = g.object(1, True)
        if compares(node):
            continue
        ev = []
        for _ in range(8):
            ty = g.pick(sorted(g.DECLARED))
            v = {"t": "struct", "ty": ty, "f": g.of_type(g.DECLARED[ty], node)}
            ev.append(val(ROOT, {"t": "ptr", "to": v} if g.chance(0.7) else v))
        yield beh(0, g, [node], ev)

def gen_hooks(r, n):
    for _ in range(n):
        g = Gen(r, r.choice([-2, -2, 0]))
        g.names = [cp(x) for x in ["a", "b", "c"] + r.sample(["d", "e", "foo", "é", ""], 2)]
        node = g.object(g.pick([1, 2]), True)
        if compares(node) and g.chance(0.8):
            continue
        ev = []
        for _ in range(10):
            v = g.hook(node)
            ev.append(val(ROOT, v))
            if g.chance(0.2):
                ev.append(val(ROOT, v))
        yield beh(0, g, [node], fixclean(g, [node], ev))

def node_cases(run, *kinds):
    """every configuration history of the small-scope model; thorough adds long random ones drawn from it"""
    out = []
    for k in kinds:
        out += run.model("MCNode", cfg="MCNode_%s.cfg" % k)
        if run.thorough():
            out += run.model("MCNode", cfg="MCNodeLong_%s.cfg" % k, extra=["-simulate", "num=1200", "-depth", "8", "-seed", str(run.seed)], workers=1)
    return out

def format_cases(r):
    """every format against every text in the tables"""
    for f in Gen.FORMATS + ["unknown"]:
        g = Gen(r, 0)
        texts = [t for k in Gen.EDGES for t in Gen.EDGES[k] if not quirk(t)]
        for i in range(0, len(texts), 12):
            yield beh(0, g, [{"k": "string", "calls": [{"m": "Format", "f": f}]}], [val(ROOT, S(t)) for t in texts[i:i + 12]])

def C01(run):
    Gen.RAW = 0.05
    cons_check(run, node_cases(run, "string") + list(format_cases(rng(run, "f"))) + list(gen_string(rng(run, "s"), run.n(3000, 40000))) + list(wide.string(rng(run, "wide"), run.n(200, 2000))) + list(wide.long(rng(run, "long"), run.n(24, 120))))

def C02(run):
    cons_check(run, node_cases(run, "number", "integer") + list(gen_number(rng(run, "n"), run.n(4000, 50000))))
    run.model("MCBig")
    simple_check(run, "big", "TrBig", list(big.gen(rng(run, "big"), run.n(2500, 30000))))

def C03(run):
    Gen.RAW = 0.05
    cons_check(run, node_cases(run, "any", "all", "oneof") + list(gen_combo(rng(run, "c"), run.n(4000, 50000))) + list(wide.combo(rng(run, "wide"), run.n(80, 600))) + list(wide.enums(rng(run, "wide2"), run.n(40, 300))))

def C04(run):
    Gen.RAW = 0.05
    cons_check(run, node_cases(run, "array") + list(gen_array(rng(run, "a"), run.n(4000, 50000))) + list(wide.array(rng(run, "wide"), run.n(150, 1000))))

def C05(run):
    Gen.RAW = 0.05
    cons_check(run, node_cases(run, "object") + list(gen_object(rng(run, "o"), run.n(4000, 50000))) + list(wide.obj(rng(run, "wide"), run.n(120, 800))))

def C06(run):
    Gen.RAW = 0.05
    cons_check(run, node_cases(run, "default") + list(gen_defaults(rng(run, "d"), run.n(4000, 50000))) + list(gen_chains(rng(run, "ch"), run.n(400, 4000))) + list(wide.obj(rng(run, "wide"), run.n(60, 400), True)))

def C07(run):
    cons_check(run, run.model("MCStruct", cfg=run.n("MCStruct.cfg", "MCStruct6.cfg")) + list(gen_struct(rng(run, "st"), run.n(4000, 50000))) + list(gen_declared(rng(run, "dt"), run.n(500, 5000))) + list(wide.struct(rng(run, "wide"), run.n(100, 800))))

def C19(run):
    cons_check(run, run.model("MCHook") + list(gen_hooks(rng(run, "hk"), run.n(4000, 50000))))

# ------------------------------------------------------------------- C08 ----
INT_EDGE = {"i8": (-128, 127), "i16": (-32768, 32767), "i32": (-2**31, 2**31 - 1), "i64": (-2**63, 2**63 - 1), "int": (-2**63, 2**63 - 1),
            "u8": (0, 255), "u16": (0, 65535), "u32": (0, 2**32 - 1), "u64": (0, 2**64 - 1), "uint": (0, 2**64 - 1)}
FLOATS = ["0", "1", "-1", "0.5", "1.5", "-2.75", "3.14159", "1e21", "-1e-7", "123456789.125", "1e300", "5e-324", "-0", "0.1", "2.9999999999999996", "4503599627370495.5"]

def maybe_arg(g, mk):
    def intx(kinds):
        k = g.pick(kinds)
        lo, hi = INT_EDGE[k]
        n = g.pick([lo, hi, 0, 1, lo + 1, hi - 1, g.r.randint(max(lo, -100), min(hi, 100)), g.r.randint(lo, hi)])
        return {"t": "num", "g": k, "d": cp(str(n)), "nm": k in ("int", "uint") and g.chance(0.1)}
    def flt(kinds=("f64",), lo=None, hi=None):
        while True:
            d = g.pick(FLOATS + [repr(g.r.uniform(-1000, 1000))])
            if (lo is None or lo < float(d)) and (hi is None or float(d) < hi):
                k = g.pick(list(kinds))
                if k == "f32" and abs(float(d)) > 1e30:
                    continue
                return {"t": "num", "g": k, "d": cp(d), "nm": k == "f64" and g.chance(0.1)}
    ints, uints = ["i8", "i16", "i32", "i64", "int"], ["u8", "u16", "u32", "u64", "uint"]
    odd = lambda: g.pick([{"t": "nil", "nm": False}, {"t": "list", "nm": False}, {"t": "map", "nm": False}, {"t": "bytes", "s": cp("a"), "nm": False},
                          {"t": "strp", "s": cp("a"), "nm": False}, {"t": "number", "d": cp("1"), "nm": False}, {"t": "bool", "b": g.chance(0.5), "nm": g.chance(0.2)},
                          {"t": "str", "s": cp(g.word()), "nm": g.chance(0.2)}, {"t": "time", "s": cp(g.pick(g.TIMES)), "nm": g.chance(0.2)}])
    if g.chance(0.2):
        x = g.pick([odd, odd, lambda: intx(["i8", "i64", "int"]), lambda: intx(["u8", "u64", "uint"])])()
        return x
    if mk == "Bool":
        return {"t": "bool", "b": g.chance(0.5), "nm": g.chance(0.08)}
    if mk == "String":
        return {"t": "str", "s": cp(g.word()), "nm": g.chance(0.08)}
    if mk == "Float":
        return flt(("f64", "f64", "f32")) if g.chance(0.85) else intx(ints + uints)
    big = lambda *l: {"t": "num", "g": "f64", "d": cp(g.pick(l)), "nm": False}
    if mk == "Int" and g.chance(0.05):
        return big("4611686018427387904", "-9223372036854775808", "9223372036854774784", "9007199254740992")
    if mk == "Uint" and g.chance(0.08):
        return big("9223372036854775808", "18446744073709549568", "13835058055282163712", "9223372036854774784")
    if mk == "Int":
        return intx(ints) if g.chance(0.6) else flt(lo=-9e15, hi=9e15) if g.chance(0.7) else intx(uints)
    if mk == "Uint":
        return intx(uints) if g.chance(0.6) else flt(lo=-1, hi=9e15) if g.chance(0.7) else intx(ints)
    if g.chance(0.4):
        return {"t": "time", "s": cp(g.pick(g.TIMES + ["1969-07-20T20:17:40.123456789-05:00", "2016-02-29T23:59:59+09:30"])), "nm": g.chance(0.08)}
    return {"t": "str", "s": cp(g.fmt_string("date-time")), "nm": g.chance(0.08)}

def maybe_text(g, mk):
    import json
    def num():
        return g.pick(["0", "1", "-1", "12", "1.0", "1e3", "1E+2", "-0", "01", "+1", "1.", ".5", "-", "0x1", "1_000", "NaN", "Infinity", "9223372036854775807", "9223372036854775808",
                       "-9223372036854775808", "-9223372036854775809", "18446744073709551615", "18446744073709551616", "99999999999999999999999", "1.5", "-2.25e-3", "1e400", "-1e400",
                       "0.1", "123456789012345678", "9007199254740993", "1e308", "00", "- 1", "1 2", "1e", "1e+", str(g.r.randint(-10**6, 10**6)), str(g.r.randint(0, 2**64 - 1))])
    def string():
        s = json.dumps(g.word(), ensure_ascii=g.chance(0.5))
        if g.chance(0.3):
            s = g.pick([s[:-1], s[1:], s + "x", '"\\x41"', '"\\u12"', '"a\nb"', "'a'", '"\\/\\b\\f\\r\\t"', '"\\ud83d\\ude00"', '"\\u00E9"', '""', '"', s + s])
        return s
    if g.chance(0.12):
        return g.pick(["", " ", "{}", "[]", '["a"]', '{"a":1}', "true", "false", "tru", "True", "nul", "NULL", "1", '"a"', '"1"', '"true"', "[1]", "truefalse"])
    if mk == "Bool":
        return g.pick(["true", "false", "true", "false", " true", "false\n", "TRUE", "1", "0", '"true"', "t"])
    if mk == "String":
        return g.pick(["", "", " ", "\t"]) + string()
    if mk in ("Int", "Uint", "Float"):
        t = g.pick(["", "", " ", "\n"]) + num() + g.pick(["", "", " "])
        if mk == "Uint" and t.strip() == "-0":
            t = "0"
        return t
    s = '"' + g.fmt_string("date-time") + '"'
    return s if g.chance(0.85) else string()

def gen_maybe(r, n):
    for _ in range(n):
        g = Gen(r, 0)
        mk = g.pick(["Bool", "Float", "Int", "String", "Time", "Uint"])
        ev = []
        for _ in range(8):
            k = g.r.random()
            if k < 0.45:
                ev.append({"o": "set", "x": maybe_arg(g, mk), "via": g.pick(["", "ptr"])})
            elif k < 0.88:
                ev.append({"o": "dec", "text": cp(maybe_text(g, mk)), "via": g.pick(["", "json", "field"])})
            else:
                ev.append({"o": "reset"})
        yield {"mk": mk, "ev": ev}

def C08(run):
    r = rng(run, "m")
    cases = run.model("MCMaybe", cfg="MCMaybe.cfg")
    for c in cases:
        for e in c["ev"]:
            e["via"] = r.choice(["", "json", "field", "ptr"])
    cases += list(gen_maybe(r, run.n(4000, 60000)))
    simple_check(run, "maybe", "TrMaybe", cases)

# ------------------------------------------------------------------- C09 ----
# names that are easily confused
NAMESETS = [["a", "a/"], ["a", "#a"], ["a", "A"], ["#/a", "/a", "a"], ["#", "#/"], ["#", ""], ["a b", "a%20b"], ["a", " a", "a "], ["#/a~1b", "#/a/b"], ["é", "e\u0301"], ["a", "a\x00"], ["a.b", "a/b"],
            ["#/definitions/a", "#/definitions/a/"], ["#/definitions/a", "#/definitions/A"], ["1", "01"], ["x" * 300, "x" * 301]]

def gen_refs(r, n):
    for _ in range(n):
        g = Gen(r, r.choice([0, -2]))
        names = [cp(x) for x in (g.pick(NAMESETS) if g.chance(0.4) else g.r.sample(["#", "#/definitions/a", "a", "b", "", "x y", "日本"], g.pick([2, 3])))]
        nmap = g.pick([1, 1, 2])
        heap = []
        nleaf = g.pick([2, 3])
        for _ in range(nleaf):
            k = g.pick(["string", "integer", "bool"])
            heap.append(g.leaf(True) if g.chance(0.3) else {"k": k, "calls": [] if g.chance(0.4) else [{"m": "Default", "v": {"string": S(g.word()), "integer": {"t": "num", "g": "int", "q": g.whole()}, "bool": B(g.chance(0.5))}[k]}]})
            if heap[-1]["k"] in ("null", "empty"):
                heap[-1] = {"k": "bool", "calls": []}
        nref = g.pick([2, 3, 4])
        refat = {}
        # names are ordered; a name may only stand for objects that do not lead
        # back to it without descending: level of name i is i
        nobj = g.pick([0, 1, 1, 2])
        objs = list(range(nleaf + 1, nleaf + nobj + 1))
        refs = list(range(nleaf + nobj + 1, nleaf + nobj + nref + 1))
        lvl = {}
        for o in refs:
            i = g.r.randrange(len(names))
            refat[o] = i
            lvl[o] = i + 1
        for o in objs:
            if g.chance(0.7):
                heap.append({"k": "object", "calls": [{"m": "AddProp", "n": nm, "c": {"id": g.pick(refs)}} for nm in g.some_names(1, 3)]
                             + ([{"m": "AdditionalProperties", "c": dict(EMPTY)}] if g.chance(0.5) else [])})
            else:
                heap.append({"k": "array", "calls": [{"m": "Items", "c": {"id": g.pick(refs)}}]})
        for o in refs:
            heap.append({"k": "ref", "map": g.r.randint(1, nmap), "calls": [{"m": "RefersTo", "name": names[refat[o]]}]})
        combos = []
        for _ in range(g.pick([0, 1, 2])):
            k = g.pick(["all", "any", "not", "oneof"])
            kids = g.r.sample(refs, min(len(refs), g.pick([1, 2])))
            c = {"k": k, "calls": []}
            if k == "not":
                c["c"] = {"id": kids[0]}
            else:
                c["calls"] = [{"m": "Add", "c": {"id": x}} for x in kids]
            heap.append(c)
            combos.append(len(heap))
            lvl[len(heap)] = max(lvl[x] for x in kids)
        ids = {}
        for o in range(1, nleaf + 1):
            lvl[o] = 0
        for o in objs:
            lvl[o] = 0
        def value():
            k = g.r.random()
            if k < 0.55:
                return g.pick([S(g.word()), B(g.chance(0.5)), {"t": "num", "g": "f64", "q": g.whole()}])
            o = g.pick(objs) if objs else None
            if o is None:
                return g.value(1, 0)
            h = heap[o - 1]
            if h["k"] == "array":
                return {"t": "arr", "e": [g.pick([S("a"), B(True), {"t": "num", "g": "int", "q": 0}]) for _ in range(g.pick([0, 1, 2]))]}
            sub = lambda: g.pick([S("a"), B(True), {"t": "num", "g": "int", "q": 0}, {"t": "obj", "g": "any", "p": []}])
            return g.obj([(c["n"], sub()) for c in h["calls"] if c["m"] == "AddProp" and g.chance(0.6)])
        ev = []
        for _ in range(14):
            k = g.r.random()
            if k < 0.3:
                i = g.r.randrange(len(names))
                # what leads to name i has level > i
                cand = [o for o in range(1, len(heap) + 1) if lvl[o] <= i]
                ev.append({"e": "setref", "map": g.r.randint(1, nmap), "n": names[i], "c": {"id": g.pick(cand)}})
            elif k < 0.4:
                ev.append({"e": "getref", "map": g.r.randint(1, nmap), "n": g.pick(names + [cp("nope")])})
            elif k < 0.45:
                ev.append({"e": "len", "map": g.r.randint(1, nmap)})
            elif k < 0.55:
                ev.append({"e": "resolved", "c": {"id": g.pick(refs)}})
            elif k < 0.68:
                ev.append({"e": "def", "c": {"id": g.pick(refs)}})
            else:
                ev.append(val({"id": g.pick(refs * 2 + objs * 2 + combos)}, value()))
        if any(c["k"] in ("any", "not", "oneof") for c in heap) and any(c["k"] == "object" for c in heap):
            # a rejecting alternative may leave defaults behind (known finding of C06)
            for c in heap[:nleaf]:
                c["calls"] = [x for x in c["calls"] if x["m"] != "Default"]
        c = beh(0, g, heap, fixclean(g, heap, ev))
        c["nmap"] = nmap
        yield c

def C09(run):
    Gen.RAW = 0.05
    cases = run.model("MCRefs", cfg=run.n("MCRefs.cfg", "MCRefs4.cfg"))
    cases += list(gen_refs(rng(run, "r"), run.n(3000, 40000))) + list(wide.refs(rng(run, "wide"), run.n(100, 1000)))
    simple_check(run, "cons", "TrRefs", cases)

# ------------------------------------------------------- C10, C11, C18 ----
def gen_schema(r, n, refs=False):
    for _ in range(n):
        simple = refs and r.random() < 0.2
        g = SGen(r, default=r.random() < 0.25, refs=refs, simple=simple)
        doc = g.document(r.choice([1, 2, 2, 3]))
        if refs and not g.holes:
            continue
        path, top = [], doc
        if refs and not simple and g.chance(0.15):
            locs = []
            g.locations(doc, [], locs)
            path, top = g.pick(locs)
        ev = [{"e": "build"}]
        for _ in range(10):
            ev.append({"e": "val", "v": g.sfit(top, doc) if g.chance(0.85) else g.jsonv(2)})
        yield schema_case(g, doc, ev, simple, path)

def from_model(r, cases, idiv=1, sh=0):
    """documents of a model, written out as JSON texts"""
    for c in cases:
        g = SGen(r)
        g.sh, g.idiv = sh, idiv
        yield schema_case(g, c["doc"] if isinstance(c["doc"], dict) else {}, c["ev"])

def C10(run):
    r = rng(run, "m")
    cases = run.model("MCSchema", cfg="MCSchema2.cfg")
    triples = run.model("MCSchema", cfg="MCSchema3.cfg")
    cases += triples if run.thorough() else r.sample(triples, 1200)
    cases = list(from_model(r, cases, 2, -1))
    cases += list(gen_schema(rng(run, "s"), run.n(3000, 40000))) + list(wide.documents(rng(run, "wide"), run.n(200, 1500)))
    stats(run, simple_check(run, "schema", "TrSchema", cases))

def C11(run):
    r = rng(run, "m")
    cases = list(from_model(r, run.model("MCSRefs")))
    cases += list(gen_schema(rng(run, "r"), run.n(3000, 30000), True)) + list(wide.documents(rng(run, "wide"), run.n(100, 800), True))
    tr = simple_check(run, "schema", "TrSchema", cases)
    run.log("builds: %d failed" % sum(not t["ev"][0].get("ok", True) for t in tr))
    stats(run, tr)

# ------------------------------------------------------------------- C18 ----
def weird(g, x, d=0):
    """a JSON document, somewhere no longer what it should be"""
    odd = lambda: g.pick([None, True, False, 0, -1, 1.5, 1e300, "", "a", "#", "#/definitions/a", [], [1], ["a"], [[]], [{}], {}, {"a": 1}, {"type": "string"}, {"$ref": "#"}, {"type": ["string", "null"]}])
    if g.chance(0.025 if d else 0.01):
        return odd()
    if isinstance(x, dict):
        y = {}
        for k, v in x.items():
            if g.chance(0.03):
                k = g.pick(["type", "enum", "items", "properties", "required", "dependencies", "not", "allOf", "default", "additionalProperties", "id", "$schema", "format", "$ref", "definitions"])
            y[k] = weird(g, v, d + 1)
        if g.chance(0.08):
            y[g.pick(["$ref", "id", "$schema", "title", "default", "enum", "links", "x-foo", "additionalItems", "minimum", "maxLength", "pattern", "required", "uniqueItems", "type"])] = \
                g.pick([odd(), "#/definitions/" + g.pick(["a", "b", "", "a/b", "~0", "~1", "~2", "%61", "%zz", "日本"]), "#/properties/a/type", "#/allOf/7", "#/enum", "#foo", "foo#", "/definitions/a", "#//", "#/",
                        "string", "integer", ["string", "integer"], ["string", "string"], "bogus", "[", "^(a|b", "date-time", -3, 2**53, 1e30])
        return y
    if isinstance(x, list):
        return [weird(g, v, d + 1) for v in x]
    return x

def gen_builds(r, n, opaque):
    import json
    for _ in range(n):
        docs, texts, sh = [], [], None
        nd = r.choice([1, 2, 2, 3])
        gs = []
        probes = []
        sh = r.choice([-2, 0, -2])
        for _ in range(nd):
            g = SGen(r, default=r.random() < 0.2, refs=r.random() < 0.7)
            g.sh, g.idiv = sh, 1 if sh >= 0 else 1 << -sh
            doc = g.document(r.choice([1, 2, 2]))
            t = g.text(doc)
            vals = [g.sfit(doc, doc) if g.chance(0.85) else g.jsonv(2) for _ in range(5)]
            if opaque and g.chance(0.85):
                t = json.dumps(weird(g, json.loads(t)))
                docs.append({"n": 0})
            elif opaque:
                docs.append({"n": 0})
            else:
                docs.append({"doc": strip(doc)})
            texts.append(t)
            probes.append(vals)
        ev, k = [], 0
        allv = sum(probes, [])
        for _ in range(r.choice([3, 4, 5])):
            ev.append({"e": "build", "b": r.randint(1, 2), "d": r.randint(1, nd)})
            k += 1
            for _ in range(r.choice([0, 2, 4])):
                i = r.randrange(len(allv))
                ev.append({"e": "val", "k": r.randint(1, k), "i": i, "v": allv[i]})
            if r.random() < 0.2:
                ev.append({"e": "together"})
        ev.append({"e": "intact"})
        for _ in range(6):
            i = r.randrange(len(allv))
            ev.append({"e": "val", "k": r.randint(1, k), "i": i, "v": allv[i]})
        yield {"sh": sh, "idiv": 1 if sh >= 0 else 1 << -sh, "docs": docs, "texts": texts, "nb": 2, "ev": ev}

def deep_docs(r):
    """deep and wide ones"""
    def nest(kw, n, leaf):
        x = leaf
        for _ in range(n):
            x = kw(x)
        return x
    shapes = [lambda x: {"not": x}, lambda x: {"allOf": [x]}, lambda x: {"anyOf": [x, {"type": "string"}]}, lambda x: {"properties": {"a": x}}, lambda x: {"items": x},
              lambda x: {"additionalProperties": x}, lambda x: {"items": [x]}, lambda x: {"dependencies": {"a": x}}, lambda x: {"oneOf": [x]}]
    out = [nest(f, 150, {"type": "string"}) for f in shapes]
    out.append({"definitions": {"d%d" % i: {"$ref": "#/definitions/d%d" % (i + 1)} for i in range(200)} | {"d200": {"type": "string"}}, "$ref": "#/definitions/d0"})
    out.append({"definitions": {"d%d" % i: {"properties": {"p%d" % j: {"$ref": "#/definitions/d%d" % j} for j in range(25)}} for i in range(25)}, "$ref": "#/definitions/d0"})
    # every definition uses the next one twice: 2^n paths
    out.append({"definitions": {"d%d" % i: {"allOf": [{"$ref": "#/definitions/d%d" % (i + 1)}, {"$ref": "#/definitions/d%d" % (i + 1)}]} for i in range(16)} | {"d16": {"type": "string"}}, "$ref": "#/definitions/d0"})
    out.append({"definitions": {"d%d" % i: {"allOf": [{"$ref": "#/definitions/d%d" % j} for j in range(i + 1, 40)]} for i in range(40)}, "properties": {"x": {"$ref": "#/definitions/d0"}}})
    return out

def C18(run):
    import json
    r = rng(run, "b")
    cases = []
    for c in run.model("MCBuilds", cfg=run.n("MCBuilds.cfg", "MCBuilds4.cfg")):
        g = SGen(r)
        g.sh, g.idiv = 0, 1
        cases.append(dict(c, sh=0, idiv=1, nb=2, texts=[g.text(d["doc"]) for d in c["docs"]]))
    cases += list(gen_builds(r, run.n(1500, 15000), False)) + list(gen_builds(r, run.n(4000, 60000), True))
    for d in deep_docs(r):
        ev = [{"e": "build", "b": 1, "d": 1}, {"e": "build", "b": 2, "d": 1}] + [{"e": "val", "k": k, "i": i, "v": v} for k in (1, 2) for i, v in enumerate([S("a"), B(True), NIL])]
        cases.append({"sh": 0, "idiv": 1, "docs": [{"n": 0}], "texts": [json.dumps(d)], "nb": 2, "ev": ev + [{"e": "intact"}]})
    tr = simple_check(run, "builds", "TrBuilds", cases)
    run.log("unreadable: %d of %d" % (sum(t.get("detail", 0) for t in tr), sum(len(t["texts"]) for t in tr)))
    b = [e["ok"] for t in tr for e in t["ev"] if e["e"] == "build"]
    run.log("builds: %d, failed %d" % (len(b), b.count(False)))
    stats(run, tr)

# ------------------------------------------------------------------- C20 ----
def gen_config(r, n):
    """configuration histories with questions in between"""
    words = ["x", "y", "", "é", "a b", "x/", "%s", "日本", "X", "x" * 40, "b", "a%20b", "%", "100%d"]
    for _ in range(n):
        g = Gen(r, 0)
        names = r.sample(words, 3)
        names = [cp(x) for x in names + [variant(r, r.choice(names), names)]]
        chain = cp("chain")
        objs = []
        def obj(k, map=0, c=0):
            objs.append({"k": k, "map": map, "c": c})
            return len(objs)
        leaves = [obj(k) for k in r.sample(["string", "integer", "number", "bool", "null", "empty", "enum", "array"], r.choice([2, 3, 4]))]
        if g.chance(0.4):
            leaves.append(obj("not", c=r.choice(leaves)))
        combos = [obj(r.choice(["any", "all", "oneof"])) for _ in range(r.choice([1, 2]))]
        objects = [obj("object") for _ in range(r.choice([1, 2]))]
        maps = [obj(r.choice(["map", "val", "val"])) for _ in range(r.choice([1, 2, 3, 4]))]
        refs = [obj("ref", map=r.choice(maps)) for _ in range(r.choice([0, 1, 2]))]
        vals = [i for i in maps if objs[i - 1]["k"] == "val"]
        plain = leaves + combos + objects
        anyc = plain + refs
        def call(o, m, **kw):
            return dict({"e": "call", "o": o, "m": m}, **kw)
        def ask(o, m, **kw):
            return dict({"e": "ask", "o": o, "m": m}, **kw)
        def some(k):
            return [r.choice(names) for _ in range(r.choice([0, 1, 1, 2, 3][:k + 2]))]
        def leafcall(o):
            k = objs[o - 1]["k"]
            v = {"string": S(g.word()), "integer": {"t": "num", "g": "int", "q": r.randrange(-5, 6)}, "number": {"t": "num", "g": "f64", "q": r.randrange(-5, 6)}, "bool": B(g.chance(0.5))}.get(k)
            if v is None:
                if k == "enum":
                    return call(o, "Enum", vs=[S(g.word()) for _ in range(r.choice([0, 1, 2]))])
                if k == "array":
                    return r.choice([lambda: call(o, "MinItems", n=2), lambda: call(o, "MaxItems", n=3), lambda: call(o, "UniqueItems", b=g.chance(0.5)), lambda: call(o, "Items", c=r.choice(anyc)),
                                     lambda: call(o, "AdditionalItems", c=r.choice(anyc)), lambda: call(o, "PositionalItems", cs=[r.choice(anyc) for _ in range(r.choice([0, 1, 2]))])])()
                return ask(o, "HasDefault")
            if g.chance(0.45):
                return call(o, "Default", v=r.choice([v, v, NIL, S("d"), B(False), {"t": "num", "g": "int", "q": 0}, {"t": "arr", "g": "any", "e": [v]}]))
            if g.chance(0.3):
                return call(o, "Enum", vs=[v])
            if k == "string":
                return r.choice([lambda: call(o, "MinLength", n=1), lambda: call(o, "MaxLength", n=4), lambda: call(o, "Regexp", src="^a"), lambda: call(o, "RegexpString", src="b$"), lambda: call(o, "Format", f="email")])()
            if k in ("integer", "number"):
                return r.choice([lambda: call(o, r.choice(["Minimum", "Maximum", "MultipleOf"]), q=r.randrange(1, 5)), lambda: call(o, r.choice(["ExclusiveMinimum", "ExclusiveMaximum"]), b=g.chance(0.5))])()
            return call(o, "Enum", vs=[v])
        kids = {i + 1: [o["c"]] if o["c"] else [] for i, o in enumerate(objs)}
        def plainly(o, above=()):
            """no reference and no way back to o below it"""
            return o not in above and o not in refs and all(plainly(c, above + (o,)) for c in kids[o])
        probes = [NIL, S("x"), S("ab"), B(True), {"t": "num", "g": "f64", "q": 1}, {"t": "num", "g": "int", "q": 3}, {"t": "arr", "g": "any", "e": []}, {"t": "obj", "g": "any", "p": []},
                  {"t": "obj", "g": "any", "p": [{"n": n, "v": v} for n, v in zip(names, [S("x"), B(True), NIL])]}]
        def step():
            x = step_()
            if x["e"] == "call":
                kids[x["o"]] += [c for c in [x.get("c", 0)] + x.get("cs", []) if c]
            return x
        def step_():
            o = r.choice(r.choice([leaves, combos, objects, objects, maps] + ([refs] if refs else [])))
            k = objs[o - 1]["k"]
            if o in plain and g.chance(0.25) and plainly(o):
                return ask(o, "Validate", v=r.choice(probes))
            if o in leaves:
                return leafcall(o) if g.chance(0.6) else ask(o, r.choice(["HasDefault", "DefaultValue"]))
            if o in combos:
                return call(o, "Add", c=r.choice(r.choice([anyc, leaves, leaves]))) if g.chance(0.6) else ask(o, r.choice(["Constraints", "Reduce", "HasDefault", "DefaultValue"]))
            if o in objects:
                return r.choice([lambda: call(o, "Required", ns=some(3)), lambda: call(o, "PropDependency", n=r.choice(names), ns=some(3)), lambda: call(o, "SchemaDependency", n=r.choice(names), c=r.choice(anyc)),
                                 lambda: call(o, "AddProp", n=r.choice(names), c=r.choice(anyc)), lambda: call(o, "PatternPropertiesString", src="^x", c=r.choice(anyc)), lambda: call(o, "PatternProperties", src="y", c=r.choice(anyc)),
                                 lambda: call(o, "AdditionalProperties", c=r.choice(anyc + [0])), lambda: call(o, r.choice(["MinProperties", "MaxProperties"]), n=r.choice([0, 1, 2])),
                                 lambda: ask(o, "IsPropRequired", n=r.choice(names)), lambda: ask(o, "IsPropRequired", n=r.choice(names)), lambda: ask(o, "GetPropDependencies", n=r.choice(names)), lambda: ask(o, "GetPropDependencies", n=r.choice(names)),
                                 lambda: ask(o, "GetSchemaDependency", n=r.choice(names)), lambda: ask(o, r.choice(["HasDefault", "DefaultValue"]))])()
            if o in refs:
                return call(o, "RefersTo", n=r.choice(names + ([chain] if o != refs[0] else []))) if g.chance(0.5) else ask(o, r.choice(["Resolved", "HasDefault", "DefaultValue"]))
            if g.chance(0.35):
                if refs and g.chance(0.2):
                    return call(o, "SetReference", n=chain, c=refs[0])
                return call(o, "SetReference", n=r.choice(names), c=r.choice(plain))
            if k == "val" and g.chance(0.6):
                return r.choice([lambda: call(o, "SetConstraintMap", c=r.choice(maps)), lambda: call(o, "SetRoot", c=r.choice(leaves)), lambda: call(o, "SetName", n=r.choice(names)), lambda: ask(o, "Root"), lambda: ask(o, "Name"),
                                 lambda: {"e": "sort", "os": r.sample(vals, len(vals))}, lambda: ask(o, "Fails", v=r.choice([NIL, S("x"), B(True), {"t": "num", "g": "f64", "q": 1}, {"t": "arr", "g": "any", "e": []}]))])()
            return r.choice([lambda: ask(o, "Len"), lambda: ask(o, "GetReference", n=r.choice(names + [chain]))])()
        ev = [step() for _ in range(r.choice([10, 20, 40]))]
        # whatever was only touched is asked for at the end
        for o in objects:
            ev += [ask(o, m, n=x) for x in names for m in ("IsPropRequired", "GetPropDependencies", "GetSchemaDependency")]
        for o in combos:
            ev += [ask(o, "Constraints"), ask(o, "Reduce")]
        for o in leaves:
            ev += [ask(o, "HasDefault"), ask(o, "DefaultValue")]
        probe = [NIL, S("x"), B(True), {"t": "num", "g": "f64", "q": 1}, {"t": "arr", "g": "any", "e": []}]
        for o in vals:
            ev += [call(o, "SetRoot", c=r.choice(leaves)), call(o, "SetName", n=r.choice(names))] + [ask(o, "Fails", v=v) for v in r.sample(probe, 3)]
        if len(vals) > 1:
            ev += [call(o, "SetName", n=r.choice(names)) for o in vals] + [{"e": "sort", "os": r.sample(vals, len(vals))}]
        yield {"sh": 0, "objs": objs, "ev": ev}

def C20(run):
    cases = run.model("MCConfig", cfg=run.n("MCConfig.cfg", "MCConfig3.cfg"))
    cases += list(gen_config(rng(run, "q"), run.n(3000, 40000)))
    simple_check(run, "config", "TrConfig", cases)
    # the lists passed to setters are overwritten right after the call
    r = rng(run, "lists")
    k = run.n(1, 10)
    cases = list(gen_string(r, 150 * k)) + list(gen_number(r, 150 * k)) + list(gen_combo(r, 200 * k)) + list(gen_array(r, 250 * k)) + list(gen_object(r, 250 * k))
    cons_check(run, [dict(c, clob=True) for c in cases])

# ------------------------------------------------------------------- C21 ----
def C21(run):
    """the library built to trace what it does"""
    run.tags = "debug0"
    r = rng(run, "t")
    k = run.n(1, 10)
    cases = []
    for l in run.models([("MCNode", "MCNode_%s.cfg" % x) for x in ("string", "integer", "oneof", "array", "object", "default")]):
        cases += r.sample(l, min(len(l), 500 * k))
    cases += list(gen_string(r, 300 * k)) + list(gen_number(r, 300 * k)) + list(gen_combo(r, 300 * k)) + list(gen_array(r, 300 * k)) + list(gen_object(r, 400 * k))
    cases += list(gen_defaults(r, 400 * k)) + list(gen_chains(r, 100 * k)) + list(gen_struct(r, 400 * k)) + list(gen_hooks(r, 200 * k))
    cons_check(run, cases)
    simple_check(run, "cons", "TrRefs", list(gen_refs(r, 500 * k)))
    stats(run, simple_check(run, "schema", "TrSchema", list(gen_schema(r, 600 * k)) + list(gen_schema(r, 600 * k, True))))
    simple_check(run, "builds", "TrBuilds", list(gen_builds(r, 400 * k, True)))
    simple_check(run, "maybe", "TrMaybe", list(gen_maybe(r, 300 * k)))

# ------------------------------------------------------------------- C22 ----
def C22(run):
    """what the generators in internal/cmd write"""
    import os, subprocess
    from concurrent.futures import ThreadPoolExecutor
    from .core import REPO, ENV, CheckError, OverlayError
    r = rng(run, "w")
    tool = {}
    for name in ("genmaybe", "gentest"):
        tool[name] = run.path(name)
        run.module(run.dir)                    # go.mod of /repo is there
        p = run.go(["build", "-trimpath", "-o", tool[name], "./internal/cmd/" + name], REPO)
        if p.returncode:
            raise CheckError("%s does not build:\n%s" % (name, p.stderr[-2000:]))
    # the Maybe types it writes, in place of those in the tree
    d = run.path("written")
    os.makedirs(d)
    subprocess.run([tool["genmaybe"]], cwd=d, env=ENV, capture_output=True, timeout=60)
    cases = list(gen_maybe(r, run.n(3000, 40000)))
    broken = lambda why: run.reject("TrMaybe", run.validate("TrMaybe", [{"id": 1, "mk": "String", "ev": [{"o": "nocompile", "detail": why}]}]), "maybe")
    if os.path.exists(d + "/maybe.go"):
        run.overlay = d + "/over.json"
        json.dump({"Replace": {os.path.join(REPO, "maybe.go"): d + "/maybe.go"}}, open(run.overlay, "w"))
        try:
            run.driver()
            simple_check(run, "maybe", "TrMaybe", cases)
            cons_check(run, list(gen_struct(r, run.n(500, 5000))))
        except OverlayError as e:
            broken(str(e))
        run.overlay = ""
    else:
        broken("no maybe.go")
    # files that say nothing it could use
    junk = list(srv.JUNK) + [s.encode() for s in cli.NOTSCHEMA]
    for _ in range(run.n(40, 400)):
        g, doc = cli.document(r)
        t = g.text(doc).strip()
        junk += [t[:r.randrange(1, len(t))].encode(), (t + r.choice(cli.TRAILING)).encode()]
    def refuse(x):
        i, text = x
        f, o = run.path("j%d.json" % i), run.path("j%d.go" % i)
        open(f, "wb").write(text)
        p = subprocess.run([tool["gentest"], f, o], cwd=d, env=ENV, capture_output=True, timeout=60)
        for y in (f, o):
            if os.path.exists(y):
                os.unlink(y)
        return {"id": i, "text": text[:2000].decode(errors="replace"), "ev": [{"e": "junk", "ok": p.returncode == 0}]}
    with ThreadPoolExecutor(8) as ex:
        run.reject("TrSchema", run.validate("TrSchema", list(ex.map(refuse, enumerate(junk, 1)))), "gentest")
    # validators it writes for a schema
    sch = [dict(c, names=["V0"], id=i + 1) for i, c in enumerate(c for c in list(gen_schema(r, run.n(500, 4000))) + list(gen_schema(r, run.n(900, 6000), True)) if (c["nilctx"] or not "$ref" in c["text"]) and not c["path"])]
    byid = {c["id"]: c for c in sch}
    def write(c):
        f, o = run.path("s%d.json" % c["id"]), run.path("s%d.go" % c["id"])
        open(f, "w").write(c["text"])
        if c["id"] % 2:                        # there may be an older, longer file
            open(o, "w").write("package jsval_test\n" + "}\n" * 20000)
        p = subprocess.run([tool["gentest"], f, o], cwd=d, env=ENV, capture_output=True, text=True, timeout=60)
        code = open(o).read() if os.path.exists(o) else ""
        for x in (f, o):
            if os.path.exists(x):
                os.unlink(x)
        return c["id"], p.returncode, code, p.stderr[:500]
    traces, codes = [], {}
    with ThreadPoolExecutor(8) as ex:
        for i, rc, code, err in ex.map(write, sch):
            m = re.match(r'\s*(?://[^\n]*\n\s*)*package \w+\s+(?:import\s+(?:\w+\s+)?"[^"]*"\s+|import\s*\([^)]*\)\s+)+', code)
            if rc:
                traces.append(dict(byid[i], ev=[{"e": "build", "ok": False, "detail": err}]))
            elif not m:
                traces.append(dict(byid[i], ev=[{"e": "nocode", "detail": code[:300]}]))
            else:
                codes[i] = code[m.end():]
    binary, bad = run.compile(codes, {i: ["V0"] for i in codes})
    for i, (what, why) in bad.items():
        traces.append(dict(byid[i], ev=[{"e": what, "detail": why, "code": codes[i][:4000]}]))
    traces += run.drive("regen", [byid[i] for i in codes if i not in bad], binary=binary)
    run.log("schemas: %d, written %d" % (len(sch), len(codes)))
    stats(run, traces)
    run.reject("TrSchema", run.validate("TrSchema", traces), "regen")

# ------------------------------------------------------------------- C15 ----
def nwild():
    import os
    from .core import HERE
    return len(re.findall(r"^\tfunc\(\) interface\{\} \{", open(os.path.join(HERE, "driver", "lib", "wild.go")).read(), re.M))

def gen_total(r, n):
    W = nwild()
    for _ in range(n):
        g = Gen(r, r.choice([-2, 0]))
        wild = lambda: {"t": "wild", "q": r.randrange(W)}
        wildness = r.choice([0, 0.1, 0.3])
        def spoil(c):
            """strange defaults and enumeration members, children that are objects of the heap"""
            for x in c.get("calls", ()):
                if x["m"] == "Default" and g.chance(wildness):
                    x["v"] = wild()
                if x["m"] == "Enum" and g.chance(wildness):
                    x["vs"].append(wild())
                if "c" in x and "id" not in x["c"]:
                    spoil(x["c"])
                    if heap and g.chance(0.15):
                        x["c"] = {"id": r.randint(1, len(heap))}
                for i, y in enumerate(x.get("cs", ())):
                    spoil(y)
            if "c" in c and "id" not in c["c"]:
                spoil(c["c"])
        heap = []
        default = g.chance(0.6)
        refs = with_refs(g, g.pick([0, 0, 1, 2]), default)
        for x in refs:
            spoil(x["c"])
        for _ in range(g.pick([1, 2, 3, 4])):
            c = g.cons(g.pick([1, 2, 2]), default, ["object", "object", "object", "array", "array", "leaf", "any", "all", "oneof", "not"])
            spoil(c)
            if c["k"] == "object" and g.chance(0.2):
                c["calls"].append({"m": "AddProp", "n": g.name(), "c": {"id": len(heap) + 1}})
            heap.append(c)
        if default:
            for c in heap + [x["c"] for x in refs]:
                settle(c)
        vals = []
        def make(d=2):
            k = r.random()
            if k < 0.5:
                return wild()
            if k < 0.65 and d:
                return {"t": "arr", "g": "any", "e": [make(d - 1) for _ in range(r.randint(0, 3))]}
            if k < 0.8 and d:
                return g.obj([(nm, make(d - 1)) for nm in g.some_names(0, 4)])
            if k < 0.85:
                return g.struct(g.object(1, True), 1)
            return g.value(2, 0.3)
        for _ in range(8):
            vals.append(make())
        for _ in range(6):
            c = g.pick(heap)
            v = g.fit(c, heap, refs)
            if v["t"] == "obj":
                for p in v["p"]:
                    if v["g"] == "any" and g.chance(0.15):
                        p["v"] = make(1)
            elif v["t"] == "arr" and v.get("g") == "any":
                v["e"] = [make(1) if g.chance(0.15) else x for x in v["e"]]
            vals.append(v)
        calls, ev = [], []
        for _ in range(30):
            k = r.random()
            if k < 0.86:
                ev.append({"e": "try", "c": r.randint(1, len(heap)), "i": r.randint(1, len(vals)), "via": g.pick(["", "", "jsval"])})
            elif k < 0.9:
                ev.append({"e": "def", "c": r.randint(1, len(heap))})
            else:
                o = r.randint(1, len(heap))
                kd = heap[o - 1]["k"]
                if kd == "string":
                    x = g.string_call(g.pick(STRING))
                elif kd in ("number", "integer"):
                    x = g.number_call(g.pick(NUMBER))
                elif kd in ("any", "all", "oneof"):
                    x = {"m": "Add", "c": g.cons(1)}
                elif kd == "array":
                    x = g.array_call(1)
                elif kd == "object":
                    x = g.pick([{"m": "Required", "ns": g.some_names(0, 1)}, {"m": "AddProp", "n": g.name(), "c": g.leaf(default)}, {"m": "MaxProperties", "n": g.pick([-1, 1, 3])},
                                {"m": "PropDependency", "n": g.name(), "ns": g.some_names(0, 1)}, {"m": "AdditionalProperties", "c": g.pick([NILC, dict(EMPTY), g.leaf()])}])
                else:
                    continue
                if default and "c" in x:
                    settle(x["c"])
                for y in x.get("cs", ()) if default else ():
                    settle(y)
                calls.append(x)
                ev.append({"e": "call", "o": o, "n": len(calls)})
        yield {"sh": g.sh, "idiv": g.idiv, "heap": heap, "refs": refs, "calls": calls, "vals": vals, "tev": ev}

def settle(c):
    """With defaults around, no alternatives, and nothing is applied twice to one value in
    unspecified order (a rejecting alternative may leave defaults behind: known finding)."""
    if "id" in c:
        return c
    if c["k"] in ("any", "oneof"):
        c["k"] = "all"
    if c["k"] == "not":
        c["k"] = "all"
        c["calls"] = [{"m": "Add", "c": c.pop("c")}] if c["c"] != NILC else []
    if "c" in c:
        settle(c["c"])
    once = set()
    keep = []
    for x in c["calls"]:
        if x["m"] in ("PatternProperties", "SchemaDependency"):
            if x["m"] in once:
                continue
            once.add(x["m"])
        if "c" in x:
            settle(x["c"])
        for y in x.get("cs", ()):
            settle(y)
        keep.append(x)
    c["calls"] = keep
    return c

def gen_history(r, n):
    """several objects, some shared, configured and used in turn; the specification knows each verdict"""
    for _ in range(n):
        g = Gen(r)
        heap = []
        for _ in range(g.pick([2, 3, 3])):
            c = g.cons(g.pick([1, 1, 2]), False, ["object", "object", "array", "leaf", "any", "all", "oneof"])
            for x in c["calls"]:
                if heap and "c" in x and g.chance(0.5):
                    x["c"] = {"id": r.randint(1, len(heap))}
            heap.append(c)
        cur = [dict(c, calls=list(c["calls"])) for c in heap]
        ev = []
        vals = [g.fit(g.pick(heap), heap) for _ in range(4)] + [g.value(2)]
        for _ in range(26):
            k = r.random()
            o = r.randint(1, len(heap))
            if k < 0.45:
                ev.append(val({"id": o}, g.pick(vals)))
            elif k < 0.65:
                ev.append(val({"id": o}, g.fit(cur[o - 1], cur)))
            else:
                kd = heap[o - 1]["k"]
                if kd == "string":
                    x = g.string_call(g.pick(STRING))
                elif kd in ("number", "integer"):
                    x = g.number_call(g.pick(NUMBER))
                elif kd in ("any", "all", "oneof"):
                    x = {"m": "Add", "c": {"id": r.randint(1, o - 1)} if o > 1 and g.chance(0.5) else g.cons(1)}
                elif kd == "array":
                    x = g.array_call(1)
                elif kd == "object":
                    x = g.pick([{"m": "Required", "ns": g.some_names(0, 1)}, {"m": "AddProp", "n": g.name(), "c": g.leaf()}, {"m": "MaxProperties", "n": g.pick([-1, 1, 3])},
                                {"m": "MinProperties", "n": g.pick([-1, 1])}, {"m": "AddProp", "n": g.name(), "c": {"id": r.randint(1, len(heap))}},
                                {"m": "AdditionalProperties", "c": g.pick([NILC, dict(EMPTY), g.leaf()])}])
                elif kd == "bool":
                    x = {"m": "Enum", "vs": [B(g.chance(0.5))]}
                else:
                    continue
                cur[o - 1]["calls"].append(x)
                ev.append({"e": "call", "o": o, "call": x})
        yield beh(0, g, heap, fixclean(g, heap, ev))

def C15(run):
    tr = simple_check(run, "total", "TrTotal", list(gen_total(rng(run, "t"), run.n(4000, 60000))))
    c = {"accepted": 0, "rejected": 0, "changed": 0, "calls": 0}
    for t in tr:
        for e in t["ev"]:
            if e["e"] == "try":
                c["accepted" if e["ok"] else "rejected"] += 1
                c["changed"] += e["ch"]
            c["calls"] += e["e"] == "call"
    run.cov["wild"] = c
    run.log("values of every kind: %s" % c)
    cons_check(run, run.model("MCShare", cfg=run.n("MCShare.cfg", "MCShare4.cfg")) + list(gen_history(rng(run, "h"), run.n(3000, 40000))))

# ------------------------------------------------------------------- C12 ----
GONAMES = ["V1", "Foo", "Zed", "X_1", "Été", "HTTP2", "A", "Validator", "V10", "V2", "M", "R0", "R1", "M1"]

def gen_code(r, n, per=6):
    """several validators generated together, sharing references"""
    for _ in range(n):
        g = Gen(r, r.choice([-2, -2, 0, -10, -30, 20, 62, 600, -600, 960, -1074]))
        g.names = [cp(x) for x in r.sample(sorted(set(NAMES + WORDS + ["a\r", "\u2028", "%!s(x)", "\\", "\x00", "\ufeff", "//", "*/", "${a}"])), r.randint(4, 8))]
        refs = with_refs(g, g.pick([0, 0, 1, 2, 3]), True)
        heap = []
        for _ in range(per):
            k = g.pick(["string", "number", "combo", "array", "object", "default", "default"])
            if k == "string":
                c = {"k": "string", "calls": g.string_calls(g.pick([1, 2, 3, 5]), g.chance(0.3))}
            elif k == "number":
                c = {"k": g.pick(["number", "integer"]), "calls": g.number_calls(g.pick([1, 2, 3, 5]), g.chance(0.3))}
            elif k == "combo":
                c = g.cons(g.pick([1, 2]), False, ["any", "all", "oneof", "not", "leaf"])
            elif k == "array":
                c = g.array(g.pick([1, 2]))
            elif k == "object":
                c = g.object(g.pick([1, 2]))
            else:
                c = g.cons(g.pick([1, 2, 2]), True, ["object", "object", "array", "all"])
            heap.append(c)
        if refs and g.chance(0.4):          # the root of a validator is itself registered
            nm = cp("root") if g.chance(0.5) else refs[0]["n"]
            if nm == cp("root"):
                refs.append({"n": nm, "c": {"id": r.randint(1, per)}})
        ev = []
        for o, c in enumerate(heap):
            cur = [val({"id": o + 1}, g.fit(c, heap, refs) if g.chance(0.85) else g.value(2)) for _ in range(7)]
            cur.append({"e": "def", "c": {"id": o + 1}})
            ev += fixclean(g, [c], cur, refs)
        for x in refs:
            c = {"k": "ref", "calls": [{"m": "RefersTo", "name": x["n"]}]}
            cur = [dict(val(c, g.fit(x["c"], heap, refs)), o=r.randint(1, per)) for _ in range(3)]
            ev += fixclean(g, heap, cur, refs)
        yield dict(beh(0, g, heap, ev, refs), names=r.sample(GONAMES, per))

def gen_many(r, n):
    """many references, every one with its own meaning"""
    for _ in range(n):
        g = Gen(r, 0)
        k = g.pick([9, 10, 11, 12, 15, 26, 40, 101])
        names = [cp(g.pick(["#/definitions/d%d", "%d", "n%d", "#/a/%d/b"]) % i) for i in range(k)]
        if g.chance(0.3):
            r.shuffle(names)
        refs = []
        for i, nm in enumerate(names):
            refs.append({"n": nm, "c": {"k": "enum", "calls": [{"m": "Enum", "vs": [S("v%d" % i)]}]} if g.chance(0.6) or not i else
                         {"k": "object", "calls": [{"m": "AddProp", "n": cp("p%d" % i), "c": {"k": "ref", "calls": [{"m": "RefersTo", "name": names[r.randrange(k)]}]}}]}})
        heap = [{"k": "object", "calls": [{"m": "AddProp", "n": cp("x%d" % i), "c": {"k": "ref", "calls": [{"m": "RefersTo", "name": nm}]}} for i, nm in enumerate(names)]}]
        ev = [val(ROOT, g.obj([(cp("x%d" % i), g.pick([S("v%d" % i)] * 6 + [S("v%d" % r.randrange(k)), g.obj([(cp("p%d" % i), S("v0"))])]))])) for i in range(k)]
        for i in r.sample(range(k), min(k, 12)):
            for v in (S("v%d" % i), S("v%d" % (i % 10)), g.obj([(cp("p%d" % i), S("v0"))]), g.obj([(cp("p%d" % (i % 10)), S("v0"))])):
                ev.append(dict(val({"k": "ref", "calls": [{"m": "RefersTo", "name": names[i]}]}, v), o=1))
        yield dict(beh(0, g, heap, ev, refs), names=["Many"])

def joint(r, lists):
    """what is generated together: different names, some of them the kind that the generator chooses itself"""
    for l in lists:
        parts, taken = [], {"V1"}
        for c in l:
            names = []
            for _ in c["heap"] if "heap" in c else [0]:
                nm = r.choice(["M", "R0", "R1", "M1", "M_"]) if r.random() < 0.2 else r.choice("ABPQVZ") + str(r.randint(0, 99))
                while nm in taken:
                    nm = r.choice("ABPQVZ") + str(r.randint(0, 999))
                taken.add(nm)
                names.append(nm)
            parts.append(dict(c, names=names))
        yield parts

def regen_check(run, cases, joints=()):
    """generate, compile, run the same validations on what the generated code makes"""
    units = [[c] for c in cases] + [list(l) for l in joints]       # what is generated together
    n, todo, unit = 0, [], {}
    for l in units:
        n += 1
        unit[n] = l
        if len(l) == 1:
            l[0]["id"] = n
            todo.append(l[0])
        else:
            todo.append({"id": n, "parts": [dict(c, ev=[]) for c in l]})
            for c in l:
                n, c["gen"] = n + 1, todo[-1]["id"]
                c["id"] = n
    gen = run.drive("gen", todo)
    traces, codes = [], {}
    for x in gen:
        l = unit[x["id"]]
        if "ev" in x:                       # crashed
            traces.append(dict(l[0], ev=x["ev"], together=l[1:]))
        elif not x["built"]:
            continue
        elif x["fail"]:
            traces.append(dict(l[0], ev=[{"e": x["fail"], "detail": x.get("detail")}], together=l[1:]))
        else:
            codes[x["id"]] = x["code"]
    binary, bad = run.compile(codes, {i: [nm for c in unit[i] for nm in c["names"]] for i in codes})
    for i, (what, why) in bad.items():
        traces.append(dict(unit[i][0], ev=[{"e": what, "detail": why, "code": codes[i][:4000]}], together=unit[i][1:]))
    traces += run.drive("regen", [c for i in codes if i not in bad for c in unit[i]], binary=binary)
    run.cov["generated"] = run.cov.get("generated", 0) + len(codes)
    run.cov["generated_together"] = len([i for i in codes if len(unit[i]) > 1])
    stats(run, traces)
    cons = [t for t in traces if "doc" not in t]
    sch = [t for t in traces if "doc" in t]
    run.reject("TrCons", run.validate("TrCons", cons), "regen")
    run.reject("TrSchema", run.validate("TrSchema", sch), "regen")

def final_configs(r, cases, k, per=40):
    """k of the configurations that a model reached, many validators per generated package"""
    by = {}
    for c in r.sample(cases, min(k, len(cases))):
        node = dict(c["heap"][0], calls=list(c["heap"][0]["calls"]))
        probes = []
        for e in c["ev"]:
            if e["e"] == "call":
                node["calls"].append(e["call"])
                probes = []
            elif e["e"] == "val":
                probes.append(e["v"])
        by.setdefault((c["sh"], c["idiv"], json.dumps(c["refs"])), []).append((node, probes))
    for (sh, idiv, refs), l in sorted(by.items()):
        for i in range(0, len(l), per):
            part = l[i:i + per]
            ev = []
            for o, (node, probes) in enumerate(part):
                ev += [val({"id": o + 1}, v) for v in probes] + [{"e": "def", "c": {"id": o + 1}}]
            yield {"sh": sh, "idiv": idiv, "heap": [n for n, _ in part], "refs": json.loads(refs), "ev": ev, "names": ["N%d" % j for j in range(len(part))]}

def C12(run):
    Gen.RAW = 0.05
    r = rng(run, "g")
    cases = []
    *kinds, pairs = run.models([("MCNode", "MCNode_%s.cfg" % k) for k in ("string", "number", "integer", "any", "oneof", "array", "object", "default")] + [("MCJoint", "MCJoint.cfg")])
    for l in kinds:
        cases += list(final_configs(r, l, run.n(200, 3000)))
    cases += list(gen_code(r, run.n(900, 6000))) + list(gen_many(r, run.n(25, 150)))
    sch = list(gen_schema(r, run.n(250, 2000))) + list(gen_schema(r, run.n(300, 2000), True))
    w, k = rng(run, "wide"), run.n(12, 80)
    for l in (wide.string(w, k), wide.combo(w, k), wide.enums(w, k), wide.array(w, k), wide.obj(w, k), wide.obj(w, k, True)):
        cases += [dict(c, names=["Wide"]) for c in l]
    sch += list(wide.documents(w, 2 * k)) + list(wide.documents(w, k, True))
    docs = [dict(c, names=["Doc"]) for c in sch if not c["nilctx"] and not c["path"]]
    j = rng(run, "joint")
    worlds = list(gen_code(j, 60))
    lists = [j.sample(docs, j.choice([1, 2, 2, 3])) + j.sample(worlds, j.choice([0, 0, 1, 2])) for _ in range(run.n(200, 1500))]
    lists += [c["parts"] for c in j.sample(pairs, run.n(250, 2500))]
    joints = list(joint(j, lists))
    regen_check(run, cases + docs, joints)

# ------------------------------------------------------------------- C13 ----
CHAN = {"t": "other", "g": "chan"}

def ungeneratable(g, d):
    """a constraint that no code can express, d levels down"""
    if d == 0:
        return g.pick([{"k": "ref", "calls": [{"m": "RefersTo", "name": cp("nowhere")}]}, {"k": "alien", "calls": []},
                       {"k": g.pick(["string", "number", "integer", "bool"]), "calls": [{"m": "Default", "v": CHAN}]},
                       {"k": g.pick(["string", "number", "integer", "bool", "enum"]), "calls": [{"m": "Enum", "vs": [S("a"), CHAN]}]},
                       {"k": "enum", "calls": [{"m": "Enum", "vs": [{"t": "arr", "e": [CHAN]}]}]}])
    c, ok = ungeneratable(g, d - 1), g.leaf()
    rx, src = g.regexp()
    k = g.pick(["any", "all", "oneof", "not", "items", "pos", "addl", "prop", "pat", "addp", "dep"])
    if k in ("any", "all", "oneof"):
        l = [{"m": "Add", "c": ok}, {"m": "Add", "c": c}]
        g.r.shuffle(l)
        return {"k": k, "calls": l}
    if k == "not":
        return {"k": k, "c": c, "calls": []}
    if k in ("items", "pos", "addl"):
        return {"k": "array", "calls": {"items": [{"m": "Items", "c": c}], "pos": [{"m": "PositionalItems", "cs": g.pick([[ok, c], [c, ok], [c]])}],
                                        "addl": [{"m": "PositionalItems", "cs": [ok]}, {"m": "AdditionalItems", "c": c}]}[k]}
    return {"k": "object", "calls": [{"m": "AddProp", "n": cp("ok"), "c": ok}] + {
        "prop": [{"m": "AddProp", "n": cp("p"), "c": c}, {"m": "AddProp", "n": cp("z"), "c": ok}], "pat": [{"m": "PatternProperties", "rx": rx, "src": src, "via": False, "c": c}],
        "addp": [{"m": "AdditionalProperties", "c": c}], "dep": [{"m": "SchemaDependency", "n": cp("d"), "c": c}]}[k]}

def emit_world(r, n, names=None):
    """n validators to generate code for"""
    g = Gen(r, r.choice([-2, 0, -10]))
    refs = with_refs(g, g.pick([0, 1, 2, 3, 4]), True)
    two = refs and g.chance(0.25)           # a second map with names of its own
    heap = []
    for _ in range(n):
        heap.append(g.cons(g.pick([1, 2, 3]), True, ["object", "object", "object", "array", "all", "leaf"]))
    nrefs, vmap, nmap = list(refs), [1] * n, 1
    if two:
        nmap, vmap = 2, [g.pick([1, 2]) for _ in range(n)]
        def remap(x, pre):
            if isinstance(x, dict):
                if x.get("k") == "ref":
                    x["map"] = 2
                if x.get("m") == "RefersTo":
                    x["name"] = pre + x["name"]
                for y in x.values():
                    remap(y, pre)
            elif isinstance(x, list):
                for y in x:
                    remap(y, pre)
        pre = cp("m2:") if g.chance(0.4) else []
        for x in json.loads(json.dumps(refs)):
            remap(x["c"], pre)
            nrefs.append({"n": pre + x["n"], "c": x["c"] if g.chance(0.6) else g.leaf(True), "map": 2})
        for i in range(n):
            if vmap[i] == 2:
                heap[i] = json.loads(json.dumps(heap[i]))
                remap(heap[i], pre)
    bad = []
    if g.chance(0.15):
        k = r.randint(1, n)
        heap[k - 1] = {"k": "all", "calls": [{"m": "Add", "c": heap[k - 1]}, {"m": "Add", "c": ungeneratable(g, g.pick([0, 0, 1, 2]))}]}
        bad = [k]
    elif g.chance(0.1) and nmap == 1:       # every validator comes with all that is registered
        nrefs.append({"n": cp(g.pick(["0bad", "zbad", "bad"])), "c": ungeneratable(g, g.pick([0, 0, 1, 2]))})
        bad = list(range(1, n + 1))
    elif nmap == 1 and g.chance(0.25):      # a root that is registered, too, under several names
        k = r.randint(1, n)
        nrefs += [{"n": cp(x), "c": {"id": k}} for x in r.sample(["root", "Root", "0", "zz", "#"], g.pick([1, 2, 3]))]
    vals = [g.fit(c, heap, refs) for c in heap for _ in range(2)]
    return dict(beh(0, g, heap, [], nrefs), nmap=nmap, vmap=vmap, vals=vals, bad=bad, names=names or [cp(x) for x in r.sample(GONAMES, n)])

def probes(r, c):
    return [{"e": "val", "o": o, "i": i} for o in range(1, len(c["heap"]) + 1) for i in r.sample(range(1, len(c["vals"]) + 1), min(3, len(c["vals"])))]

def C13(run):
    Gen.RAW = 0.05
    r = rng(run, "e")
    run.model("MCEmit")
    cases = []
    for l in run.models([("MCEmit", "MCEmitH_%s.cfg" % k) for k in ("all", "some", "none")]):
        for h in l if not run.thorough() else l * 6:
            c = emit_world(r, 3, h["names"])
            pr = probes(r, c)
            c["eev"] = pr + [{"e": "gen", "order": o} for o in h["orders"]] + pr + [{"e": "names"}] + [{"e": "gen", "order": o} for o in h["orders"]]
            cases.append(c)
    for _ in range(run.n(300, 4000)):       # larger sets, more references
        n = r.choice([1, 2, 5, 8, 12])
        names = [cp(x) for x in r.sample(["Aa%d" % i for i in range(20)], n)]
        if r.random() < 0.3:
            names = [x if r.random() < 0.5 else [] for x in names]
        c = emit_world(r, n, names)
        pr = probes(r, c)
        orders = [r.sample(range(1, n + 1), n) for _ in range(3)] + [list(range(1, n + 1))]
        c["eev"] = pr + [{"e": "gen", "order": o} for o in orders + orders] + pr + [{"e": "names"}]
        cases.append(c)
    for c in gen_schema(r, run.n(150, 1500), True):
        if not c["nilctx"] and not c["path"]:
            cases.append({"sh": c["sh"], "idiv": c["idiv"], "text": c["text"], "names": [cp("Doc")], "heap": [], "refs": [], "vals": [], "bad": [],
                          "eev": [{"e": "gen", "order": [1]}] * 6 + [{"e": "write", "order": [1], "kind": "err", "at": 10}]})
    for c in list(wide.documents(r, run.n(60, 400))) + list(wide.documents(r, run.n(30, 200), True)):
        cases.append({"sh": c["sh"], "idiv": c["idiv"], "text": c["text"], "names": [cp("Doc")], "heap": [], "refs": [], "vals": [], "bad": [], "eev": [{"e": "gen", "order": [1]}] * 4})
    for _ in range(run.n(25, 200)):         # the writer fails at every byte
        c = emit_world(r, r.choice([1, 2]))
        if c["bad"]:
            continue
        o = list(range(1, len(c["heap"]) + 1))
        c["eev"] = [{"e": "write", "order": o, "kind": k, "at": a} for k in ("err", "short", "late") for a in list(range(0, 400)) + list(range(-12, 0))] \
            + [{"e": "write", "order": o, "kind": "none", "at": 0}, {"e": "gen", "order": o}]
        cases.append(c)
    for i, c in enumerate(cases):
        c["id"] = i + 1
    # three processes, whose maps iterate in different orders
    runs = [run.drive("emit", cases) for _ in range(run.n(3, 6))]
    traces = {}
    for rs in runs:
        for t in rs:
            if t["id"] in traces:
                traces[t["id"]]["ev"] = traces[t["id"]]["ev"] + [e for e in t["ev"] if e["e"] != "write"]
            else:
                traces[t["id"]] = t
    traces = list(traces.values())
    ng = nw = 0
    for t in traces:
        dig = {"": 0}
        for e in t["ev"]:
            if e["e"] == "gen":
                ng += 1
                e["dig"] = dig.setdefault(e["sha"], len(dig))
            nw += e["e"] == "write"
    run.cov["generations"], run.cov["writes"] = ng, nw
    run.log("%d generations, %d writes" % (ng, nw))
    run.reject("TrEmit", run.validate("TrEmit", traces), "emit")

# ------------------------------------------------------------------- C14 ----
def gen_concval(r, n):
    """worlds whose validations many goroutines perform at once"""
    srcs = [lambda: gen_defaults(r, 1), lambda: gen_defaults(r, 1), lambda: gen_struct(r, 1), lambda: gen_object(r, 1, True), lambda: gen_combo(r, 1), lambda: gen_array(r, 1),
            lambda: gen_string(r, 1), lambda: gen_number(r, 1)]
    k = 0
    while k < n:
        for c in r.choice(srcs)():
            ev = []
            for e in c["ev"]:                # configuration first, then only validations
                if e["e"] == "call":
                    c["heap"][0] = dict(c["heap"][0], calls=c["heap"][0]["calls"] + [e["call"]])
                elif e["e"] == "val":
                    ev.append(e)
            k += 1
            yield dict(c, ev=ev[:8], threads=r.choice([2, 4, 8]), reps=4)

def gen_concops(r, n, keep):
    """several threads register, look up, resolve, extend and validate"""
    for _ in range(n):
        g = Gen(r, 0)
        kinds = r.sample(["string", "integer", "bool", "null"], 3)
        heap = [{"k": k, "calls": []} for k in kinds] + [{"k": "string", "calls": [{"m": "MinLength", "n": 2}]}]
        leaves = list(range(1, len(heap) + 1))
        names = [cp(x) for x in r.sample(["#", "a", "#/definitions/x", ""], 2)]
        refs, objs = [], []
        for _ in range(g.pick([1, 1, 2])):
            heap.append({"k": "ref", "calls": [{"m": "RefersTo", "name": g.pick(names)}]})
            refs.append(len(heap))
        props = [cp(x) for x in ("p", "q", "r")]
        for _ in range(g.pick([0, 1, 1, 2])):
            calls = [{"m": "AdditionalProperties", "c": dict(EMPTY)}] if g.chance(0.6) else []
            for p in props:
                if g.chance(0.3):
                    calls.append({"m": "AddProp", "n": p, "c": {"id": g.pick(leaves)}})
            heap.append({"k": "object", "calls": calls})
            objs.append(len(heap))
        kindval = {"string": lambda: S(g.pick(["a", "bb"])), "integer": lambda: {"t": "num", "g": "int", "q": 1}, "bool": lambda: B(True), "null": lambda: {"t": "nil"}}
        def leafval():
            return g.pick(list(kindval.values()))()
        threads = g.pick([2, 3, 3, 4])
        ops = []
        focus = g.pick(["refs", "objs", "both"]) if objs else "refs"
        for th in range(1, threads + 1):
            role = g.pick(["write", "read", "mix"]) if th > 1 else "write"
            for _ in range(g.pick([2, 3, 4])):
                onref = focus == "refs" or focus == "both" and g.chance(0.5)
                wr = {"write": 0.9, "read": 0.05, "mix": 0.4}[role]
                if onref:
                    if g.chance(wr):
                        op = {"f": "setref", "n": g.pick(names), "c": g.pick(leaves)}
                    else:
                        f = g.pick(["getref", "len", "resolved", "resolved", "vref", "vref"])
                        op = {"f": f}
                        if f == "getref":
                            op["n"] = g.pick(names)
                        if f in ("resolved", "vref"):
                            op["o"] = g.pick(refs)
                        if f == "vref":
                            op["v"] = leafval()
                else:
                    o = g.pick(objs)
                    if g.chance(wr):
                        m = g.pick(["AddProp", "AddProp", "Required", "PropDependency", "SchemaDependency", "PatternProperties"])
                        call = {"m": m}
                        if m == "AddProp":
                            call.update(n=g.pick(props), c={"id": g.pick(leaves)})
                        elif m == "Required":
                            call.update(ns=[g.pick(props)])
                        elif m == "PropDependency":
                            call.update(n=g.pick(props[:2]), ns=[g.pick(props)])
                        elif m == "SchemaDependency":
                            call.update(n=props[2], c={"id": g.pick(leaves)})
                        else:
                            x = g.pick("pq")
                            call.update(rx={"al": True, "ar": False, "alts": [[{"lo": 1, "hi": 1, "neg": False, "r": [[ord(x), ord(x)]]}]]}, src="^" + x, via=g.chance(0.5), c={"id": g.pick(leaves)})
                        op = {"f": "conf", "o": o, "call": call}
                    else:
                        f = g.pick(["isreq", "deps", "sdep", "vobj", "vobj", "vobj"])
                        op = {"f": f, "o": o}
                        if f == "vobj":
                            op["v"] = g.obj([(p, leafval()) for p in props if g.chance(0.6)])
                        else:
                            op["n"] = g.pick(props)
                ops.append(dict(op, th=th))
        c = beh(0, g, heap, [])
        del c["ev"]
        yield dict(c, ops=ops, threads=threads, reps=keep * 8, keep=keep, slow=g.chance(0.3))

def hist_traces(run, results, mode):
    traces, n = [], 0
    for c in results:
        if "hists" not in c:
            run.violation("the process died", {"mode": mode, "trace": c})
            continue
        for h in c["hists"]:
            n += 1
            if any(e["e"] not in ("call", "ret") for e in h["ev"]):
                run.violation("a concurrent history ended in %s" % h["ev"][-1]["e"], {"mode": mode, "history": h, "heap": c["heap"]})
                continue
            traces.append({"id": len(traces) + 1, "sh": c["sh"], "idiv": c["idiv"], "heap": c["heap"], "ops": h["ops"], "ev": h["ev"]})
    return traces

def C14(run):
    r = rng(run, "c")
    race = {"GORACE": "halt_on_error=1"}
    # many goroutines validate with shared constraints: what each sees is what it would see alone
    cases = list(gen_concval(r, run.n(700, 8000)))
    for i, c in enumerate(cases):
        c["id"] = i + 1
    tr = run.drive("concval", cases)
    tr2 = run.drive("concval", r.sample(cases, min(len(cases), run.n(350, 3000))), race=True, env=race)
    for t in tr2:
        t["id"] += len(cases)
    stats(run, tr + tr2)
    run.reject("TrCons", run.validate("TrCons", tr + tr2), "concval")
    # registrations, lookups, resolutions, additions and validations at once
    cases = []
    for l in run.models([("MCConc", "MCConc_refs.cfg"), ("MCConc", "MCConc_objs.cfg")]):
        for c in l:
            cases.append(dict(c, reps=40, keep=4))
            if any(o["f"] in ("resolved", "vref") for o in c["ops"]):
                cases.append(dict(c, reps=60, keep=6, slow=True))
    cases += list(gen_concops(r, run.n(1200, 12000), run.n(4, 6)))
    for i, c in enumerate(cases):
        c["id"] = i + 1
    res = run.drive("concops", cases) + run.drive("concops", r.sample(cases, min(len(cases), run.n(500, 4000))), race=True, env=race)
    traces = hist_traces(run, res, "concops")
    def overlaps(t):
        return any(a["e"] == b["e"] == "call" for a, b in zip(t["ev"], t["ev"][1:]))
    run.cov["overlapping_histories"] = sum(map(overlaps, traces))
    run.log("%d of %d histories have overlapping operations" % (run.cov["overlapping_histories"], len(traces)))
    run.histories("TrConc", traces)

# ------------------------------------------------------------------- C16 ----
def C16(run):
    r = rng(run, "cli")
    cases = []
    for q in run.model("MCCli"):
        for _ in range(run.n(2, 12)):
            cases.append(cli.make(r, q))
    cases += [cli.make(r, q) for q in cli.requests(r, run.n(1500, 8000))]
    run.reject("TrCli", run.validate("TrCli", cli.check(run, cases)), "cli")

# ------------------------------------------------------------------- C17 ----
def C17(run):
    r = rng(run, "srv")
    cases = []
    for q in run.model("MCServer"):
        for threads in (1, 3):
            cases.append(srv.case(r, q["reqs"], threads))
    exe = cli.build(run)
    for i in range(run.n(100, 800)):         # longer histories, the real command now and then
        cases.append(srv.case(r, [r.choice(srv.KINDS) for _ in range(r.choice([8, 16, 40]))], r.choice([1, 2, 8]), exe if i % 6 == 0 else ""))
    for i, c in enumerate(cases):
        c["id"] = i + 1
    traces = run.drive("server", cases)
    some = [c for c in r.sample(cases, run.n(300, len(cases))) if c["threads"] > 1 and not c["exe"]]
    for t in run.drive("server", some, race=True, env={"GORACE": "halt_on_error=1"}):
        traces.append(dict(t, id=t["id"] + len(cases)))
    n = [e["a"]["success"] for t in traces for e in t["ev"] if e["e"] == "answer" and e["a"]["kind"] == "json"]
    run.cov["answers"] = {"generated": sum(n), "refused": len(n) - sum(n)}
    run.log("%d generated, %d refused" % (sum(n), len(n) - sum(n)))
    run.reject("TrServer", run.validate("TrServer", traces), "server")

def simple_check(run, mode, spec, cases, **kw):
    for i, c in enumerate(cases):
        c["id"] = i + 1
    traces = run.drive(mode, cases, **kw)
    run.reject(spec, run.validate(spec, traces), mode)
    return traces

CHECKS = {k: v for k, v in globals().items() if re.match(r"C\d\d$", k)}
