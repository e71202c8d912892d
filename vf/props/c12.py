"""C12: unit nibbles and unit items."""
import z3
from ..lib import *
from .. import conc
from ..conc import attempt
import hrdc.descriptor as _pub

LEVEL = "proof"
TRUSTED = ["vf/interp.py (AST semantics of Python, cross-checked against CPython by selftest)", "z3 / cvc5"]
ASSUMPTIONS = ["dimension functions are given integers"]
RULE = "a case = one dimension and exponent, one combination of all dimensions, or one unit value; distinct by its JSON text"
QUICK_S, QUICK_N, THOROUGH_S = 5, 3000, 60

U = _item.Unit
DIMS = dict(length=1, mass=2, time=3, temperature=4, current=5, luminousintensity=6)
SYSTEMS = dict(SILinear=1, SIRotation=2, EnglishLinear=3, EnglishRotation=4)


def val(system, **k):
    return system + sum((x % 16) << 4 * DIMS[d] for d, x in k.items())


NAMED = dict(Centimeter=val(1, length=1), Radian=val(2, length=1), Inch=val(3, length=1), Degree=val(4, length=1),
             Gram=val(1, mass=1), Slug=val(3, mass=1), Second=val(0, time=1), Kelvin=val(1, temperature=1),
             Fahrenheit=val(3, temperature=1), Ampere=val(0, current=1), Candela=val(0, luminousintensity=1),
             CmPerSec=val(1, time=-1, length=1), Momentum=val(1, time=-1, length=1, mass=1), G=val(1, time=-2, length=1),
             Newton=val(1, time=-2, length=1, mass=1), Joule=val(1, time=-2, length=2, mass=1),
             Volt=val(1, time=-3, length=2, mass=1, current=-1))


def unit_dim(d):
    def unit(report):
        def h(p, it):
            x = p.int("exponent", keep=True)
            ok = mkbool(z3.And(x.e >= -8, x.e <= 7))
            r, v = raises(it, lambda: it.call(it.getattr(U, d), (x,)))
            if r:
                p.prove(d + ": an exponent of -8..7 is accepted", lnot(ok))
            else:
                p.prove(d + ": any other exponent is refused", ok)
                p.prove(d + ": two's complement nibble at its position", eqi(v, mkint((x.e % 16) * (1 << 4 * DIMS[d]))))
        run_harness(report, d, h)
    return unit


def unit_combine(report):
    """r | dimension(x) is r + dimension(x) for any r whose nibble there is free; by
    induction any combination of a system and distinct dimensions keeps all nibbles."""
    import ast
    for d, k in DIMS.items():
        for how in ("int", "named"):
            def h(p, it):
                x = p.int(d, -8, 7, keep=True)
                lo = p.int("lo", 0, (1 << 4 * k) - 1, keep=True)
                hi = p.int("hi", 0, keep=True)
                r = mkint(hi.e * (1 << 4 * k + 4) + lo.e)
                v = it.call(it.getattr(U, d), (x,))
                t = it.binop(ast.BitOr(), r if how == "int" else named(p, r), v)
                p.prove(d + ": combining with anything else (%s) keeps both" % how, eqi(t, mkint(zi(r) + (x.e % 16) * (1 << 4 * k))))
                t = it.binop(ast.BitOr(), v, r if how == "int" else named(p, r))
                p.prove(d + ": combining in the other order (%s) keeps both" % how, eqi(t, mkint(zi(r) + (x.e % 16) * (1 << 4 * k))))
            run_harness(report, "combine %s %s" % (d, how), h)


def unit_item(report):
    names = {n: int(getattr(U, n)) for n in dir(U) if isinstance(getattr(U, n), NamedConstant)}

    def h(p, it):
        v = p.int("value", 0, (1 << 32) - 1, keep=True)
        x = it.call(U, (v,))
        w = it.getattr(x, "value")
        p.prove("a unit item keeps its value", eqi(ints(it, w), v))
        t = it.to_str(w)
        if isinstance(t, str) and t.strip("0") != "":
            p.prove("a unit item prints a name only for that name's value",
                    t in NAMED and eqi(v, NAMED[t]) if not t.lstrip("-").isdigit() else eqi(v, int(t)))
        elif isinstance(t, SymStr):
            p.prove("a unit item without a name prints its value", len(t.p) == 1 and isinstance(t.p[0], Dec) and eqi(t.p[0].v, v))
        y = it.call(U, (named(p, v),))
        p.prove("a unit item keeps the value of a named constant", eqi(ints(it, it.getattr(y, "value")), v))
    run_harness(report, "unit item", h)
    bad = published_bad()
    report.add("published units are the combinations they are named after", "failed" if bad else "proved", "evaluation", 0.0, None, bad)


def published_bad():
    bad = []
    for n, v in list(NAMED.items()) + list(SYSTEMS.items()):
        c = getattr(U, n, None)
        if c is None or int(c) != v or str(c) != n or getattr(_pub.Unit, n, None) is not c:
            bad.append("%s = %s" % (n, None if c is None else (str(c), hex(int(c)))))
    return bad


UNITS = [("dimension " + d, unit_dim(d)) for d in DIMS] + [("combination", unit_combine), ("item", unit_item)]


def check(inp):
    op = inp["op"]
    if op == "published":
        return "; ".join(published_bad()) or None
    if op == "dim":
        d, x = inp["d"], inp["x"]
        r = attempt(getattr(U, d), x)
        if -8 <= x <= 7:
            if r != ("ok", (x % 16) << 4 * DIMS[d]):
                return "%s(%d) gives %s" % (d, x, r)
        elif r[0] == "ok":
            return "%s(%d) is accepted: %s" % (d, x, r[1])
        return None
    if op == "comb":
        r = getattr(U, inp["system"])
        for d, x in inp["x"].items():
            r = r | getattr(U, d)(x)
        want = val(SYSTEMS[inp["system"]], **inp["x"])
        return None if r == want else "combination gives %s, not %s" % (hex(r), hex(want))
    v = inp["v"]
    for given in (v, NamedConstant("x", v)):
        i = U(given)
        if int(i.value) != v:
            return "Unit(%d) holds %d" % (v, int(i.value))
        if given is v:
            s = str(i.value)
            if s != str(v) and NAMED.get(s) != v:
                return "Unit(%d) prints as %s" % (v, s)
    y = _item.Item.parse(U(v).bytes())
    if int(y.value) != v:
        return "Unit(%d) decodes as %d" % (v, int(y.value))
    return None


def gen(rng, hints):
    op = rng.choice(("dim", "comb", "item"))
    if op == "dim":
        return {"op": op, "d": rng.choice(list(DIMS)), "x": rng.choice([rng.randrange(-20, 21), rng.choice(conc.MINED)] + [v for n, v in hints[:20]])}
    if op == "comb":
        ds = list(DIMS)
        rng.shuffle(ds)
        return {"op": op, "system": rng.choice(list(SYSTEMS)), "x": {d: rng.randrange(-8, 8) for d in ds}}
    v = rng.choice([rng.randrange(1 << 32), rng.randrange(1 << 16), rng.choice(list(NAMED.values())),
                    abs(rng.choice(conc.MINED)) % (1 << 32), rng.choice(list(NAMED.values())) ^ (1 << rng.randrange(32))])
    return {"op": "item", "v": v}


def fixed(hints):
    yield {"op": "published"}
    for d in DIMS:
        for x in range(-40, 41):
            yield {"op": "dim", "d": d, "x": x}
        for n, x in hints:
            yield {"op": "dim", "d": d, "x": x}
    for v in list(NAMED.values()) + [x for x in conc.boundary(False) if 0 <= x < 1 << 32] + list(range(2048)):
        yield {"op": "item", "v": v}
