"""Behaviours that are large in one direction: long texts and arrays, many
children, many properties, deep nesting, long chains of references."""
from .gen import Gen, S, B, NIL, cp, beh, EMPTY

ROOT = {"id": 1}
SIZES = [9, 17, 33, 65, 100, 129, 257]

def val(v, c=ROOT):
    return {"e": "val", "c": c, "v": v}

def num(q):
    return {"t": "num", "g": "f64", "q": q}

def con(k, *calls, **kw):
    return dict({"k": k, "calls": [c for c in calls if c]}, **kw)

def call(m, **kw):
    return dict({"m": m}, **kw)

def only(i):
    """accepts the integer i"""
    return con("integer", call("Minimum", q=i), call("Maximum", q=i))

def string(r, n):
    for _ in range(n):
        g = Gen(r, 0)
        L = r.choice(SIZES + [63, 64, 127, 128, 255, 256, 512, 1000, 4097])
        L += r.choice([0, 0, 1, -1])
        chars = r.choice(["a", "é", "日", "😀", "aé", "a日😀", "ab", "e\u0301"])
        text = lambda k: "".join(chars[i % len(chars)] for i in range(k))
        t = text(L)
        size = len(t.encode())
        near = lambda: r.choice([L - 1, L, L + 1, size - 1, size, size + 1, r.choice([255, 256, 1 << 15, 1 << 16])])
        calls = []
        if g.chance(0.8):
            calls.append(call("MaxLength", n=near()))
        if g.chance(0.6):
            calls.append(call("MinLength", n=near()))
        if g.chance(0.25):
            k = r.choice([20, 64, 100, 300])
            calls.append(call("Enum", vs=[S(text(L + i - k // 2)) for i in range(k) if L + i - k // 2 > 0 and (i != k // 2 or g.chance(0.5))]))
            if L > 600:
                calls.pop()
        if g.chance(0.35):
            calls.append(pattern(r, chars, L))
        yield beh(0, g, [con("string", *calls)], [val(S(t[:-1] + "b")), val(S("b" + t[1:])), val(S(t + "b"))] + [val(S(text(max(0, L + d)))) for d in (0, 1, -1)] + [val(S("x" * size)), val(S("x" * L))])

def item(chars, lo=1, hi=1):
    return {"lo": lo, "hi": hi, "neg": False, "r": [[ord(c), ord(c)] for c in chars]}

def pattern(r, chars, L):
    """an expression that the end or the beginning of a long text decides"""
    cl = "[" + "".join(sorted(set(chars))) + "]"
    k = r.randrange(6)
    if k == 0:
        rx, src = [item(chars, 1, -1)], "^" + cl + "+$"
    elif k == 1:
        rx, src = [item(chars, 0, -1), item("b")], "^" + cl + "*b$"
    elif k == 2:
        n = min(L, 1000) + r.choice([-1, 0])
        rx, src = [item(chars, n, -1)], "^%s{%d,}$" % (cl, n)
    elif k == 3:
        n = min(L - 1, 1000)
        rx, src = [item(chars, n, n), item(chars, 0, -1)], "^%s{%d}%s*$" % (cl, n, cl)
    elif k == 4:
        return call("Regexp", rx={"al": False, "ar": True, "alts": [[item("b")]]}, src="b$")
    else:
        return call("Regexp", rx={"al": False, "ar": False, "alts": [[item("bx")]]}, src="[bx]")
    return call("Regexp", rx={"al": True, "ar": True, "alts": [rx]}, src=src)

def long(r, n):
    """around the lengths that 16 bits hold"""
    for i in range(n):
        g = Gen(r, 0)
        L = (1 << 16) + [0, -1, 1][i % 3] if i % 4 else 1 << 15
        chars = r.choice(["a", "a", "é", "日"])
        t = chars * L
        calls = [pattern(r, chars, L)] if i % 2 == 0 else [call(r.choice(["MaxLength", "MinLength"]), n=r.choice([L - 1, L, L + 1, L * len(chars.encode())]))]
        yield beh(0, g, [con("string", *calls)], [val(S(t)), val(S(t[:-1] + "b"))])

def combo(r, n):
    for _ in range(n):
        g = Gen(r, 0)
        k = r.choice(["any", "oneof", "all"])
        N = r.choice(SIZES + [31, 32, 64, 128, 256, 300])
        if k == "all":
            # all but one number
            i = r.randrange(N)
            kids = [con("not", c=only(j)) for j in range(N)]
            probe = [0, N - 1, N, i, -1]
        else:
            kids = [only(j) for j in range(N)]
            for _ in range(r.choice([0, 1, 1, 2])):
                kids[r.randrange(N)] = only(r.randrange(N))
            if g.chance(0.3):
                kids = [con("string")] * (N - 1) + [only(0)]
                r.shuffle(kids)
            probe = [0, N - 1, N - 2, N, -1, r.randrange(N), r.randrange(N), N // 2]
        yield beh(0, g, [con(k, *[call("Add", c=c) for c in kids])], [val(num(i)) for i in probe] + [val(S("x")), val(NIL)])

def enums(r, n):
    for _ in range(n):
        g = Gen(r, 0)
        N = r.choice(SIZES + [300])
        mem = [num(i) for i in range(N)]
        for _ in range(r.choice([0, 1, 3])):
            mem[r.randrange(N)] = r.choice([S("x"), B(True), NIL, {"t": "arr", "g": "any", "e": [num(1)]}])
        yield beh(0, g, [con("enum", call("Enum", vs=mem))], [val(v) for v in [num(0), num(N - 1), num(N), num(r.randrange(N)), S("x"), B(True), B(False), NIL]])

def array(r, n):
    for _ in range(n):
        g = Gen(r, 0)
        kind = r.choice(["items", "items", "pos", "unique", "unique", "count", "nest"])
        L = r.choice(SIZES)
        if kind in ("items", "count") and g.chance(0.5):
            L = r.choice([513, 1001, 1025, 1500])
        ok = lambda: [S(r.choice("abc")) for _ in range(L)]
        arr = lambda e: {"t": "arr", "g": "any", "e": e}
        bad = []
        for at in {0, L - 1, r.randrange(L), L // 2, r.randrange(L)}:
            e = ok()
            e[at] = num(1)
            bad.append(arr(e))
        if kind == "items":
            c, vs = con("array", call("Items", c=con("string"))), [arr(ok())] + bad
        elif kind == "pos":
            P = r.choice([L, L, L - 1, L // 2, L + 1])
            calls = [call("PositionalItems", cs=[con("string") for _ in range(P)])]
            if g.chance(0.6):
                calls.append(call("AdditionalItems", c=con("string") if g.chance(0.7) else dict(EMPTY)))
            c, vs = con("array", *calls), [arr(ok())] + bad
        elif kind == "count":
            c = con("array", call("MinItems", n=L + r.choice([0, 1, -1])), call("MaxItems", n=L + r.choice([0, 1, -1, 5])))
            vs = [arr(ok()), arr(ok()[1:]), arr(ok() + [S("x")])]
        elif kind == "unique":
            c = con("array", call("UniqueItems", b=True))
            mk = r.choice([num, lambda i: S("k%d" % i), lambda i: arr([num(i)]), lambda i: g.obj([(cp("a"), num(i))])])
            base = [mk(i) for i in range(L)]
            vs = [arr(base)]
            for i, j in [(0, L - 1), (L - 2, L - 1), (0, 1), tuple(sorted(r.sample(range(L), 2)))]:
                e = list(base)
                e[j] = e[i]
                vs.append(arr(e))
        else:
            D = r.choice([5, 10, 20, 40])
            c, x, y = con("string"), S("a"), num(1)
            for _ in range(D):
                c, x, y = con("array", call("Items", c=c)), arr([x]), arr([y])
            vs = [x, y]
        yield beh(0, g, [c], [val(v) for v in vs])

def obj(r, n, default=False):
    for _ in range(n):
        g = Gen(r, 0)
        N = r.choice([9, 17, 33, 65, 70])
        names = [cp("p%d" % i) for i in range(N)]
        kind = r.choice(["default", "default", "deep"] if default else ["props", "required", "count", "patterns", "deps", "additional", "deep", "schemadeps"])
        full = lambda: [(x, S("a")) for x in names]
        def spoiled(v=num(1)):
            i = r.randrange(N)
            return g.obj([(x, v if j == i else S("a")) for j, x in enumerate(names)])
        def lacking():
            i = r.randrange(N)
            return g.obj([p for j, p in enumerate(full()) if j != i])
        any_ = call("AdditionalProperties", c=dict(EMPTY)) if g.chance(0.5) else None
        props = [call("AddProp", n=x, c=con("string")) for x in names]
        more = lambda: g.obj(full() + [(cp("extra"), num(1))])
        vs = [g.obj(full()), spoiled(), spoiled(), lacking(), more()]
        if kind == "props":
            c = con("object", *props, any_)
        elif kind == "required":
            c = con("object", call("Required", ns=names), *(props if g.chance(0.5) else []), call("AdditionalProperties", c=dict(EMPTY)))
            vs += [lacking(), lacking(), lacking()]
        elif kind == "count":
            c = con("object", call("MinProperties", n=N + r.choice([0, 1, -1])), call("MaxProperties", n=N + r.choice([0, 1, -1])), call("AdditionalProperties", c=dict(EMPTY)))
        elif kind == "patterns":
            lit = lambda ch: {"lo": 1, "hi": 1, "neg": False, "r": [[ord(ch), ord(ch)]]}
            rx = lambda x: {"alts": [[lit(chr(ch)) for ch in x]], "al": True, "ar": True}
            c = con("object", *[call("PatternProperties", rx=rx(x), src="^" + "".join(map(chr, x)) + "$", via=g.chance(0.5), c=con("string")) for x in names], call("AdditionalProperties", c=dict(EMPTY)) if g.chance(0.7) else None)
        elif kind == "deps":
            i = r.randrange(N)
            c = con("object", *([call("PropDependency", n=names[i], ns=names)] if g.chance(0.5) else [call("PropDependency", n=names[j], ns=[names[(j + 1) % N]]) for j in range(N)]), call("AdditionalProperties", c=dict(EMPTY)))
            vs += [lacking(), lacking(), g.obj([(names[i], S("a"))])]
        elif kind == "schemadeps":
            c = con("object", *[call("SchemaDependency", n=x, c=con("object", call("AdditionalProperties", c=con("string")))) for x in names], call("AdditionalProperties", c=dict(EMPTY)))
        elif kind == "additional":
            c = con("object", call("AdditionalProperties", c=con("string")))
        elif kind == "default":
            c = con("object", *[call("AddProp", n=x, c=con("string", call("Default", v=S("d%d" % i)))) for i, x in enumerate(names)], any_)
            vs = [g.obj([]), lacking(), g.obj(full()), g.obj(full()[: N // 2]), g.obj([(names[r.randrange(N)], S("x"))])]
        else:
            D = r.choice([5, 10, 20, 40])
            c, x, y, z = con("object", call("AddProp", n=cp("a"), c=con("string", call("Default", v=S("in")) if default else None))), g.obj([(cp("a"), S("a"))]), g.obj([(cp("a"), num(1))]), g.obj([])
            for _ in range(D):
                c = con("object", call("AddProp", n=cp("a"), c=c), call("Required", ns=[cp("a")]) if g.chance(0.5) else None)
                x, y, z = (g.obj([(cp("a"), q)]) for q in (x, y, z))
            vs = [x, y, z]
        yield beh(0, g, [c], [val(v) for v in vs])

def refs(r, n):
    """chains of references, registered in any order, used through every link"""
    for _ in range(n):
        g = Gen(r, 0)
        N = r.choice([6, 9, 10, 12, 17, 33, 40])
        names = [cp("r%d" % i) for i in range(N)]
        heap = [con("string", call("Default", v=S("d")))] + [{"k": "ref", "map": 1, "calls": [call("RefersTo", name=x)]} for x in names]
        # name i stands for the reference to name i + 1, the last one for the string
        ev = [{"e": "setref", "map": 1, "n": names[i], "c": {"id": i + 3 if i < N - 1 else 1}} for i in range(N)]
        r.shuffle(ev)
        late = ev.pop() if g.chance(0.3) else None
        for _ in range(4):
            o = {"id": r.randrange(2, N + 2)} if g.chance(0.5) else {"id": 2}
            ev += [val(S("a"), o), val(num(1), o)]
            if g.chance(0.5):
                ev.append({"e": "def", "c": o})
            if late:
                ev.append(late)
                late = None
        c = beh(0, g, heap, ev)
        c["nmap"] = 1
        yield c

# ------------------------------------------------------------------ documents
def is_(i, one):
    """the schema of the integer i"""
    return {"type": ["integer"], "minimum": i * one, "maximum": i * one}

def documents(r, n, refs=False):
    from .schema import SGen, schema_case
    for _ in range(n):
        g = SGen(r, r.choice([0, -1]), refs=refs)
        one = g.idiv
        N = r.choice([9, 10, 11, 17, 26, 33, 65])
        names = [cp("p%d" % i) for i in range(N)]
        V = lambda i: num(i * one)
        arr = lambda e: {"t": "arr", "g": "any", "e": e}
        full = [(x, V(i)) for i, x in enumerate(names)]
        def one_off():
            i = r.randrange(N)
            return g.obj([(x, V(i + 1) if j == i else v) for j, (x, v) in enumerate(full)])
        def without():
            i = r.randrange(N)
            return g.obj([x for j, x in enumerate(full) if j != i])
        objs = [g.obj(full), one_off(), one_off(), without(), without(), g.obj(full + [(cp("more"), V(1))]), g.obj([])]
        strict = {"additionalProperties": {"b": False}} if g.chance(0.5) else {}
        if not refs:
            k = r.choice(["props", "required", "combo", "enum", "pos", "items", "length", "deepobj", "deeparr", "deepcombo", "deps", "count", "types"])
            if k == "props":
                doc, vs = dict({"type": ["object"], "properties": [{"n": x, "s": is_(i, one)} for i, x in enumerate(names)]}, **strict), objs
            elif k == "required":
                doc, vs = {"type": ["object"], "required": names}, objs + [without() for _ in range(4)]
                if g.chance(0.5):
                    doc["properties"] = [{"n": x, "s": is_(i, one)} for i, x in enumerate(names)]
            elif k == "combo":
                kw = r.choice(["anyOf", "oneOf", "allOf"])
                l = [is_(i, one) for i in range(N)]
                if kw == "allOf":
                    l = [{"not": x} for x in l]
                elif g.chance(0.6):
                    l[r.randrange(N)] = is_(r.randrange(N), one)
                doc, vs = {kw: l}, [V(i) for i in [0, N - 1, N, N // 2, r.randrange(N), r.randrange(N), -1]]
            elif k == "enum":
                doc, vs = {"enum": [V(i) for i in range(N)] + [S("x%d" % i) for i in range(N)]}, [V(0), V(N - 1), V(N), S("x0"), S("x%d" % (N - 1)), S("x%d" % N), B(True), NIL]
            elif k == "pos":
                doc = {"type": ["array"], "items": {"many": [is_(i, one) for i in range(N)]}}
                if g.chance(0.5):
                    doc["additionalItems"] = {"b": False}
                l = [V(i) for i in range(N)]
                bad = list(l)
                bad[r.randrange(N)] = V(-1)
                vs = [arr(l), arr(bad), arr(l[:-1]), arr(l + [V(N)]), arr(l[:1])]
            elif k == "items":
                doc = {"type": ["array"], "items": {"one": {"type": ["string"]}}, "uniqueItems": g.chance(0.5)}
                l = [S("x%d" % i) for i in range(4 * N)]
                bad, dup = list(l), list(l)
                bad[r.randrange(4 * N)] = V(1)
                dup[r.randrange(2 * N)] = dup[-1]
                vs = [arr(l), arr(bad), arr(dup)]
            elif k == "length":
                L = r.choice([100, 127, 128, 255, 256, 257, 500, 1000])
                doc = {"type": ["string"], "maxLength": L}
                if g.chance(0.5):
                    doc["minLength"] = L - r.choice([0, 1, 2])
                ch = r.choice("aé日😀")
                vs = [S(ch * i) for i in (L - 3, L - 2, L - 1, L, L + 1)]
            elif k == "count":
                L = r.choice([N, 100, 300])
                doc = r.choice([{"type": ["array"], "minItems": L, "maxItems": L}, {"type": ["object"], "minProperties": L, "maxProperties": L}])
                vs = [x for i in (L - 1, L, L + 1) for x in (arr([V(j) for j in range(i)]), g.obj([(cp("k%d" % j), V(j)) for j in range(i)]))]
            elif k == "types":
                doc = {"type": r.sample(SGen.TYPES, r.choice([3, 4, 5, 6, 7]))}
                vs = [S("a"), V(1), B(True), NIL, arr([]), g.obj([]), num(1)]
            elif k == "deps":
                doc = {"type": ["object"], "dependencies": [{"n": names[i], "ns": [names[(i + 1) % N]]} for i in range(N)] if g.chance(0.5) else
                       [{"n": x, "s": {"type": ["object"], "required": [names[(i + 1) % N]]}} for i, x in enumerate(names)]}
                vs = objs + [without(), without()]
            else:
                D = r.choice([6, 9, 12, 17, 26])
                doc, good, bad = {"type": ["integer"]}, V(1), S("a")
                for i in range(D):
                    if k == "deepobj":
                        doc = {"type": ["object"], "properties": [{"n": cp("a"), "s": doc}]}
                        good, bad = (g.obj([(cp("a"), x)]) for x in (good, bad))
                    elif k == "deeparr":
                        doc = {"type": ["array"], "items": {"one": doc}}
                        good, bad = arr([good]), arr([good, bad])
                        if i > 6:
                            bad["e"] = bad["e"][1:]
                    else:
                        doc = r.choice([{"not": {"not": doc}}, {"anyOf": [doc, {"type": ["null"]}]}, {"allOf": [doc]}, {"oneOf": [{"type": ["boolean"]}, doc]}])
                vs = [good, bad, NIL, B(True)]
        else:
            k = r.choice(["each", "chain", "tree", "list"])
            R = lambda i: {"ref": cp("#/definitions/d%d" % i)}
            D = lambda l: [{"n": cp("d%d" % i), "s": x} for i, x in enumerate(l)]
            if k == "each":
                doc = dict({"type": ["object"], "properties": [{"n": x, "s": R(i)} for i, x in enumerate(names)], "definitions": D([is_(i, one) for i in range(N)])}, **strict)
                vs = objs
            elif k == "chain":
                doc = dict(R(0) if g.chance(0.3) else {"type": ["object"], "properties": [{"n": cp("a"), "s": R(r.randrange(N))}]}, definitions=D([R(i + 1) for i in range(N - 1)] + [is_(7, one)]))
                vs = [V(7), V(6), S("a")] + [g.obj([(cp("a"), x)]) for x in (V(7), V(6), S("a"))]
            elif k == "list":
                # one of a long list
                i = r.randrange(N)
                t = r.choice(["%d", "%d", "%d", "0%d", "+%d", "%d0"]) % i
                doc = {"type": ["object"], "properties": [{"n": cp("a"), "s": {"ref": cp("#/definitions/l/" + r.choice(["anyOf", "oneOf"]) + "/" + t)}}],
                       "definitions": [{"n": cp("l"), "s": {kw: [is_(j, one) for j in range(N)] for kw in ("anyOf", "oneOf")}}]}
                vs = [g.obj([(cp("a"), V(j))]) for j in (i, 0, N - 1, r.randrange(N))] + [g.obj([])]
            else:
                # a definition for every level
                K = min(N, 26)
                doc = dict(R(0) if g.chance(0.5) else {"type": ["object"], "properties": [{"n": cp("top"), "s": R(0)}]},
                           definitions=D([{"type": ["object"], "properties": [{"n": cp("a"), "s": R(i + 1)}], "required": [cp("a")]} for i in range(K - 1)] + [is_(7, one)]))
                good, bad = V(7), V(8)
                for _ in range(K - 1):
                    good, bad = (g.obj([(cp("a"), x)]) for x in (good, bad))
                vs = [good, bad, good["p"][0]["v"]] + [g.obj([(cp("top"), x)]) for x in (good, bad)]
        yield schema_case(g, doc, [{"e": "build"}] + [{"e": "val", "v": v} for v in vs])

# -------------------------------------------------------------------- structs
def struct(r, n):
    """many fields, and structs embedded many levels deep"""
    from .gen import BLANK
    for _ in range(n):
        g = Gen(r, 0)
        N = r.choice([9, 12, 17, 20, 33, 40])
        names = [cp("p%d" % i) for i in range(N)]
        kinds = [r.choice(["plain", "plain", "maybe", "unset", "ptr"]) for _ in range(N)]
        dflt = g.chance(0.4)
        calls = [call("AddProp", n=x, c=con("string", call("Default", v=S("d%d" % i)) if dflt and k != "plain" else None, call("MaxLength", n=3))) for i, (x, k) in enumerate(zip(names, kinds))]
        if g.chance(0.4):
            calls.append(call("Required", ns=r.sample(names, r.choice([1, N // 2, N]))))
        calls.append(call("AdditionalProperties", c=dict(EMPTY)) if g.chance(0.6) else None)
        c = con("object", *calls)
        def fields(bad):
            out = []
            for i, (x, k) in enumerate(zip(names, kinds)):
                v = S("long!") if i == bad else S("v%d" % i)
                f = dict(BLANK, go=cp("F%d" % i), tag=x + (cp(",omitempty") if i % 5 == 0 else []))
                if k == "plain":
                    f.update(v=v, any=i % 2 == 0)
                else:
                    f.update(maybe=True, mk="String", ptr=k == "ptr", valid=k != "unset" or i == bad)
                    if f["valid"]:
                        f["v"] = v
                out.append(f)
            return out
        ev = []
        for bad in (-1, r.randrange(N), r.randrange(N), -1):
            fs = fields(bad)
            E = r.choice([0, 0, 2, 4, 6])
            if E:
                # spread over E embedded levels
                cur = []
                for lvl in range(E):
                    part = fs[lvl::E]
                    if lvl:
                        part = part + [dict(BLANK, go=cp("E%d" % lvl), emb=True, v={"t": "struct", "f": cur})]
                    cur = part
                fs = cur
            ev.append(val({"t": "ptr", "to": {"t": "struct", "f": fs}} if g.chance(0.8) or dflt else {"t": "struct", "f": fs}))
        yield beh(0, g, [c], ev)
