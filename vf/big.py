"""C02: numbers of any size, with independent exponents."""
import math, struct
from fractions import Fraction

def parts(x):
    """Fraction with a power of two as denominator -> (s, bits, e)"""
    if x == 0:
        return 0, [], 0
    s, x = (-1 if x < 0 else 1), abs(x)
    e = -(x.denominator.bit_length() - 1)
    assert x.denominator == 1 << -e
    n = x.numerator
    while n % 2 == 0:
        n //= 2
        e += 1
    return s, [int(c) for c in bin(n)[2:]], e

def f32(x):
    return struct.unpack("f", struct.pack("f", x))[0]

def num(g, x):
    x = Fraction(x)
    s, b, e = parts(x)
    return {"g": g, "s": s, "b": b, "e": e, "lit": float(x).hex() if g[0] == "f" else str(int(x))}

RANGES = {"i8": (-1 << 7, (1 << 7) - 1), "i16": (-1 << 15, (1 << 15) - 1), "i32": (-1 << 31, (1 << 31) - 1), "i64": (-1 << 63, (1 << 63) - 1), "int": (-1 << 63, (1 << 63) - 1),
          "u8": (0, (1 << 8) - 1), "u16": (0, (1 << 16) - 1), "u32": (0, (1 << 32) - 1), "u64": (0, (1 << 64) - 1), "uint": (0, (1 << 64) - 1)}

def gen(r, n):
    for _ in range(n):
        base = r.choice([0.1, 0.3, 1 / 3, 1e17, 1e22, 1e16, 1e15, 2.0 ** 53, 2.0 ** 53, 2.0 ** 63, 2.0 ** 64, 2.0 ** 31, 2.0 ** 24, 0.7, 1.1, 3.3, 1e-7, 5e-324, 2.0 ** -1022, 1e300, 1.7e308, 100.0, 255.0, 65536.0, 0.0, 1.0,
                         float(r.randrange(1, 10 ** 6)), r.random(), r.random() * 10 ** r.randrange(0, 20), math.ldexp(r.randrange(1 << 53), r.randrange(-80, 80))]) * r.choice([1, 1, 1, -1])
        def near():
            x = base
            k = r.random()
            if k < 0.3:
                for _ in range(r.choice([1, 1, 2, 3])):
                    x = math.nextafter(x, r.choice([math.inf, -math.inf]))
            elif k < 0.5:
                x = x + r.choice([1, -1, 0.5, 2, 3])
            elif k < 0.6:
                x = x * r.choice([2, 3, 0.5, -1, 10])
            elif k < 0.7:
                try:
                    x = f32(x)
                except OverflowError:
                    pass
            return x if math.isfinite(x) else base
        mult = None
        def facet():
            nonlocal mult
            m = r.choice(["Minimum", "Maximum", "Minimum", "Maximum", "ExclusiveMinimum", "ExclusiveMaximum", "MultipleOf", "MultipleOf", "Enum"])
            x = {"e": "call", "m": m}
            if m in ("Minimum", "Maximum"):
                x["v"] = num("f64", near())
            elif m == "Enum":
                x["vs"] = [typed() for _ in range(r.choice([1, 2, 3]))]
            elif m == "MultipleOf":
                o, k = r.choice([0, 1, 1, 3, 5, 7, 9, 15, 25, 125, 1001, 12345 | 1, r.randrange(1, 1 << 28) | 1]), r.choice([0, 0, 0, 1, 2, 3, -1, -2, -10, 10, 30, 52, 53, -52])
                mult = Fraction(o) * Fraction(2) ** k
                x["v"] = num("f64", mult)
                x.update(mo=o, me=k)
            else:
                x["on"] = r.random() < 0.75
            return x
        def typed():
            k = r.random()
            if mult and k < 0.3:
                x = mult * (r.randrange(1, 1 << r.choice([3, 20, 60])) * r.choice([1, -1]))
                if r.random() < 0.4:
                    x += r.choice([1, -1, 2])
                x = Fraction(float(x))
            elif k < 0.5:
                x = Fraction(base) + r.choice([0, 1, -1, 2, -2, 3, 5])
            else:
                x = Fraction(near())
            gs = ["f64", "f64"] if abs(x) < Fraction(10) ** 309 and Fraction(float(x)) == x else []
            try:
                if Fraction(f32(float(x))) == x:
                    gs.append("f32")
            except OverflowError:
                pass
            if x.denominator == 1:
                gs += [g for g, (lo, hi) in RANGES.items() if lo <= x <= hi]
            if not gs:
                return num("f64", float(x))
            v = num(r.choice(gs), x)
            if r.random() < 0.1:
                v["ptr"] = True
            return v
        ev = [facet() for _ in range(r.choice([0, 1, 1, 2, 3]))]
        for _ in range(10):
            if r.random() < 0.08:
                ev.append(facet())
            v = typed()
            ev.append({"e": "val", "v": v, "ok": False})
        for x in ev:                       # members of an enumeration are never pointers
            for v in x.get("vs", []):
                v.pop("ptr", None)
        yield {"k": r.choice(["number", "integer"]), "ev": ev}
