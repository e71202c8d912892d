"""C01: encoding and decoding of single items."""
import random
import z3
from ..lib import *
from .. import conc
from ..conc import ITEMS, NOVALUE, spec_bytes, mk, boundary, attempt
from ..hid import triple

LEVEL = "proof"
TRUSTED = ["vf/interp.py (AST semantics of Python, cross-checked against CPython by selftest)", "z3 4.x / cvc5",
           "models of struct.pack/unpack and int(math.log(m, 2)), compared with CPython at every power of two on each run"]
ASSUMPTIONS = ["integers are Python's (unbounded), so arithmetic is exact",
               "int(math.log(m,2)) is monotonic in m; it is compared with the model at 2**k-1, 2**k, 2**k+1 for all k <= 32"]
RULE = "a case = one (item, value, way of giving the value) or one byte string; distinct by its JSON text"
QUICK_S, QUICK_N, THOROUGH_S = 8, 6000, 120


def rng_of(kt):
    return (-(1 << 31), (1 << 31) - 1) if ITEMS[kt][1] else (0, (1 << 32) - 1)


def give(it, p, v, how):
    """The value v as an int, a named constant, or a usage constant."""
    if how == "int":
        return v
    if how == "named":
        return named(p, v)
    u = object.__new__(UsageConst)
    u.name, u.value, u.kinds = SymStr([Opaque("u", nonempty=True, parts=None)]), v, set()
    return u


def cls_of(kt):
    return _item.Item.registry[kt]


def unit_encode(kt):
    name, signed = ITEMS[kt]

    def unit(report):
        for how in ("int", "nothing") if kt in NOVALUE else ("int", "named", "usage"):

            def h(p, it, how=how):
                lo, hi = (0, 0) if kt in NOVALUE else rng_of(kt)
                v = 0 if kt in NOVALUE else p.int("value", lo, hi, keep=True)
                x = it.call(cls_of(kt), () if how == "nothing" else (give(it, p, v, how),))
                pre = "%s(%s)" % (name, how)
                p.prove(pre + ": keeps its value", eqi(ints(it, it.getattr(x, "value")), v))
                b = it.call_method(x, "bytes")
                n = len(b) - 1
                if kt == (0, 12):
                    p.prove(pre + ": no payload", n == 0)
                else:
                    p.prove(pre + ": payload of 1, 2 or 4 bytes", n in (1, 2, 4))
                    small = {1: 0, 2: 1, 4: 2}.get(n, 0)
                    if small and kt not in NOVALUE:
                        w = 8 * small
                        l, u = (-(1 << w - 1), (1 << w - 1) - 1) if signed else (0, (1 << w) - 1)
                        p.prove(pre + ": shortest payload", mkbool(z3.Or(zi(v) < l, zi(v) > u)))
                code = {0: 0, 1: 1, 2: 2, 4: 3}.get(n, 0)
                p.prove(pre + ": prefix", eqi(b[0], kt[1] << 4 | kt[0] << 2 | code))
                p.prove(pre + ": payload is the value, little endian",
                        land(*[eqi(b[1 + k], mkint((zi(v) / (1 << 8 * k)) % 256)) for k in range(n)]) if n else eqi(v, 0))
                if n:
                    w = 8 * n
                    l, u = (-(1 << w - 1), (1 << w - 1) - 1) if signed else (0, (1 << w) - 1)
                    p.prove(pre + ": value fits its payload", mkbool(z3.And(zi(v) >= l, zi(v) <= u)))
            run_harness(report, "%s(%s)" % (name, how), h)
        if kt not in NOVALUE:
            def g(p, it):
                lo, hi = rng_of(kt)
                v = p.int("value", keep=True)
                p.assume(z3.Or(v.e < lo, v.e > hi))
                r, e = raises(it, lambda: it.call_method(it.call(cls_of(kt), (v,)), "bytes"))
                p.prove("%s: a value that cannot be encoded is refused" % name, r)
            run_harness(report, name + " out of range", g)
    return unit


def unit_decode(kt):
    name, signed = ITEMS[kt]

    def unit(report):
        for n in (0, 1, 2, 4):
            if kt in NOVALUE and n:
                continue

            def h(p, it):
                bs = [p.int("b%d" % k, 0, 255, keep=True) for k in range(n)]
                data = sym.mkbytes([kt[1] << 4 | kt[0] << 2 | {0: 0, 1: 1, 2: 2, 4: 3}[n]] + bs)
                x = it.call(_item.Item.parse, (data,))
                raw = sum([b.e * (1 << 8 * k) for k, b in enumerate(bs)], z3.IntVal(0))
                want = mkint(z3.If(raw >= (1 << 8 * n - 1), raw - (1 << 8 * n), raw)) if signed and n else mkint(raw)
                pre = "%s, %d bytes" % (name, n)
                p.prove(pre + ": kind and tag", land(eqi(ints(it, it.getattr(x, "kind")), kt[0]),
                                                     eqi(ints(it, it.getattr(x, "tag")), kt[1])))
                p.prove(pre + ": class", type(x) is cls_of(kt))
                p.prove(pre + ": value", eqi(ints(it, it.getattr(x, "value")), want))
            run_harness(report, "%s, %d bytes" % (name, n), h)
    return unit


def unit_eq(kt):
    name = ITEMS[kt][0]

    def unit(report):
        for other in ITEMS:
            def h(p, it):
                def one(k, nm):
                    lo, hi = (0, 0) if k in NOVALUE else rng_of(k)
                    v = p.int(nm, lo, hi, keep=True) if k not in NOVALUE else 0
                    return it.call(cls_of(k), (v,)), v
                x, v = one(kt, "a")
                y, w = one(other, "b")
                want = eqi(v, w) if kt == other else False
                got = it.truth(it.eq(x, y))
                p.prove("%s == any item iff same item and value" % name, want if got else lnot(want))
                got = it.truth(it.ne(x, y))
                p.prove("%s != any item iff not equal" % name, lnot(want) if got else want)
            run_harness(report, "%s == %s" % (name, ITEMS[other][0]), h)

        def g(p, it):
            x = it.call(cls_of(kt), (0,))
            p.prove(name + " is not equal to None", not it.truth(it.eq(x, None)))
        run_harness(report, name + " == None", g)
    return unit


def unit_tables(report):
    reg = _item.Item.registry
    report.add("the items are exactly those of HID 1.11", "proved" if {tuple(map(int, k)) for k in reg} == set(ITEMS) else "failed",
               "evaluation", 0.0, None, sorted(map(str, reg)))
    bad = [k for k, (nm, sg) in ITEMS.items() if k in reg and (getattr(_item, nm, None) is not reg[k] or bool(reg[k].signed) != bool(sg))]
    report.add("each item is reachable under its name, with the signedness HID gives it", "failed" if bad else "proved", "evaluation", 0.0, None, bad)
    import math
    import struct
    bad = []
    for k in range(0, 33):
        for m in ((1 << k) - 1, 1 << k, (1 << k) + 1):
            if 0 < m < (1 << 32) and int(math.log(m, 2)) != m.bit_length() - 1:
                bad.append(m)
    report.add("model of int(math.log(m, 2)) agrees with CPython", "failed" if bad else "proved", "evaluation", 0.0, None, bad)
    for f, n, sg in (("B", 1, 0), ("H", 2, 0), ("L", 4, 0), ("b", 1, 1), ("h", 2, 1), ("l", 4, 1)):
        lo, hi = (-(1 << 8 * n - 1), (1 << 8 * n - 1) - 1) if sg else (0, (1 << 8 * n) - 1)
        for v in (lo, hi, 0, 1, hi // 2, lo // 2):
            b = struct.pack("<" + f, v)
            if b != (v % (1 << 8 * n)).to_bytes(n, "little") or struct.unpack("<" + f, b)[0] != v:
                bad.append((f, v))
        for v in (lo - 1, hi + 1):
            try:
                struct.pack("<" + f, v)
                bad.append((f, v))
            except struct.error:
                pass
    report.add("model of struct agrees with CPython", "failed" if bad else "proved", "evaluation", 0.0, None, bad)


UNITS = [("tables", unit_tables)]
for _kt, (_n, _s) in ITEMS.items():
    UNITS.append(("encode " + _n, unit_encode(_kt)))
    UNITS.append(("decode " + _n, unit_decode(_kt)))
    UNITS.append(("equality " + _n, unit_eq(_kt)))


# ------------------------------------------------------------------ run time
def as_value(v, how):
    if how == "named":
        return NamedConstant("Some", v)
    if how == "usage":
        return UsageConst("some.Thing", v, register=False)
    return v


def check(inp):
    op, kt = inp["op"], tuple(inp["kt"])
    reg = _item.Item.registry
    if {tuple(map(int, k)) for k in reg} != set(ITEMS):
        return "the item registry is not HID's list of items"
    cls = getattr(_item, ITEMS[kt][0])
    if reg[kt] is not cls:
        return "item %s is not registered under its code" % (ITEMS[kt][0],)
    if op == "enc":
        v, how = inp["v"], inp["how"]
        want = spec_bytes(kt[0], kt[1], v)
        if want is None:
            r = attempt(lambda: cls(as_value(v, how)).bytes())
            if r[0] == "ok":
                return "%s(%d) encoded as %s, should be refused" % (cls.__name__, v, r[1].hex())
            return None
        x = cls() if how == "nothing" else cls(as_value(v, how))
        if triple(x) != kt + (v,):
            return "%s(%d) is %s" % (cls.__name__, v, triple(x))
        b = x.bytes()
        if b != want:
            return "%s(%d) encodes as %s, not %s" % (cls.__name__, v, b.hex(), want.hex())
        y = _item.Item.parse(b)
        if triple(y) != triple(x) or type(y) is not cls or not (x == y) or x != y:
            return "%s(%d) does not decode to itself: %s" % (cls.__name__, v, triple(y))
        if x.bytes() != want:
            return "second encoding differs"
        return None
    if op == "dec":
        data = bytes.fromhex(inp["data"])
        n = len(data)
        y = _item.Item.parse(bytes([kt[1] << 4 | kt[0] << 2 | {0: 0, 1: 1, 2: 2, 4: 3}[n]]) + data)
        v = int.from_bytes(data, "little", signed=bool(ITEMS[kt][1]) and n > 0)
        if triple(y) != kt + (v,) or type(y) is not cls:
            return "%s with payload %s decodes as %s" % (cls.__name__, inp["data"], triple(y))
        return None
    if op == "eq":
        k2, v, w = tuple(inp["kt2"]), inp["v"], inp["w"]
        x, y = mk(kt + (v,)), mk(k2 + (w,))
        want = (kt, v) == (k2, w)
        if bool(x == y) != want or bool(x != y) == want or bool(x == None) or not (x != None):  # noqa: E711
            return "equality of %s and %s" % (triple(x), triple(y))
        return None
    return "skip"


def gen(rng, hints):
    kt = rng.choice(list(ITEMS))
    lo, hi = (0, 0) if kt in NOVALUE else rng_of(kt)

    def val():
        k = rng.randrange(6)
        if k == 0 and hints:
            return rng.choice(hints)[1]
        if k == 1:
            return rng.choice(conc.MINED) * rng.choice((1, -1)) + rng.randrange(-1, 2)
        if k == 2:
            return rng.choice(B)
        b = rng.randrange(1, 34)
        return rng.randrange(-(1 << b), 1 << b) if ITEMS[kt][1] else rng.randrange(-2, 1 << b)
    op = rng.choice(("enc", "enc", "dec", "eq"))
    if op == "enc":
        v = 0 if kt in NOVALUE else val()
        return {"op": "enc", "kt": kt, "v": v, "how": "int" if kt in NOVALUE else rng.choice(("int", "named", "usage"))}
    if op == "dec":
        n = 0 if kt in NOVALUE else rng.choice((0, 1, 2, 4))
        return {"op": "dec", "kt": kt, "data": bytes(rng.choice((0, 1, 127, 128, 255, rng.randrange(256))) for _ in range(n)).hex()}
    clip = lambda v, k: 0 if k in NOVALUE else max(rng_of(k)[0], min(rng_of(k)[1], v))
    k2 = rng.choice([kt, kt, rng.choice(list(ITEMS))])
    v = val()
    w = rng.choice([v, v ^ (1 << rng.randrange(31)), val()])
    return {"op": "eq", "kt": kt, "kt2": k2, "v": clip(v, kt), "w": clip(w, k2)}


B = boundary(True)


def fixed(hints):
    extra = sorted({v for n, v in hints})
    for kt in ITEMS:
        if kt in NOVALUE:
            yield {"op": "enc", "kt": kt, "v": 0, "how": "int"}
            yield {"op": "enc", "kt": kt, "v": 0, "how": "nothing"}
            yield {"op": "dec", "kt": kt, "data": ""}
            continue
        for v in B + extra + list(range(-260, 600)):
            yield {"op": "enc", "kt": kt, "v": v, "how": "int"}
        for v in B:
            if v >= 0 or ITEMS[kt][1]:
                yield {"op": "enc", "kt": kt, "v": v, "how": "named"}
        for n in (0, 1, 2, 4):
            for fill in ("00", "01", "7f", "80", "ff"):
                for top in ("00", "01", "7f", "80", "ff"):
                    yield {"op": "dec", "kt": kt, "data": (fill * (n - 1) + top) if n else ""}
    for kt in ITEMS:
        for k2 in ITEMS:
            for v, w in ((0, 0), (1, 1), (1, 2), (255, 256)):
                yield {"op": "eq", "kt": kt, "kt2": k2, "v": 0 if kt in NOVALUE else v, "w": 0 if k2 in NOVALUE else w}
