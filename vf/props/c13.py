"""C13: what a value holds, from the arguments it was constructed with."""
import z3
from ..lib import *
from .. import conc
from ..conc import attempt

LEVEL = "proof"
TRUSTED = ["vf/interp.py (AST semantics of Python, cross-checked against CPython by selftest)", "z3 / cvc5"]
ASSUMPTIONS = ["sizes, counts and bounds are integers or omitted; a named array is a list of one or more usages or a non-empty usage range",
               "flags 0..511 given as an integer or a named constant", "the physical bounds held by a named array carry no meaning (they are never compiled)"]
RULE = "a case = one set of constructor arguments; distinct by its JSON text"
QUICK_S, QUICK_N, THOROUGH_S = 6, 5000, 60
V = _d.Value
WAYS = (8, 9, 11)


def unit_value(arr):
    def unit(report):
        def h(p, it):
            way = [V.Input, V.Output, V.Feature][p.choose(3)] if arr == "none" else V.Input
            kw, g = {}, {}
            u = [None, p.int("usage", 0, keep=True), named(p, p.int("usage", 1))][p.choose(3)]
            size = p.int("size", 0, keep=True)
            f = p.int("flags", 0, 511, keep=True)
            fl = f
            if p.choose(2):
                fl = named(p, f)
            kw["flags"] = fl

            def opt(name, lo=None, hi=None):
                v = p.int(name, lo, hi, keep=True) if p.choose(2) else None
                if v is not None:
                    kw[name] = v
                g[name] = v
                return v
            lmin = opt("logicalMin")
            lmin = 1 if lmin is None else lmin
            lmax = opt("logicalMax")
            pmin, pmax = opt("physicalMin"), opt("physicalMax")
            al = opt("alignment", 0)
            for n in ("unit", "unitExponent", "designator", "string", "count"):
                kw[n] = g[n] = p.int(n, keep=True)
            na = None
            if arr == "list":
                n = p.int("entries", 1, keep=True)
                na = [Block(n, None, lambda it, i: i, "entries")]
            elif arr == "range":
                a = p.int("first", 0, keep=True)
                b = p.int("last", keep=True)
                p.assume(b.e >= a.e)
                na = it.call(UsageRange, (a, b))
                n = mkint(b.e - a.e + 1)
            if na is not None:
                kw["namedArray"] = na
            const = mkbool(f.e % 2 == 1)
            must = False if na is not None or lmax is not None else lnot(const)
            r, x = raises(it, lambda: it.call(V, (way, u, size), kw))
            if r:
                p.prove("accepted when it has bounds, a named array, or is constant", must)
                return
            p.prove("refused without bounds or named array, unless constant", lnot(must))
            get = lambda n: it.getattr(x, n)
            p.prove("direction kept", eqi(ints(it, get("way")), int(way)))
            p.prove("size kept", eqi(ints(it, get("size")), size))
            p.prove("usage kept", get("usage") is None if u is None else eqi(ints(it, get("usage")), ints(it, u)))
            for n_ in ("unit", "unitExponent", "designator", "string", "count"):
                p.prove(n_ + " kept", eqi(ints(it, get(n_)), g[n_]))
            want = al if al is not None else mkint(z3.If(size.e < 8, size.e, 8))
            p.prove("alignment", eqi(ints(it, get("alignment")), want))
            same = lambda a, b: (a is None and b is None) if a is None or b is None else eqi(ints(it, a), ints(it, b))
            p.prove("logical minimum", same(get("logicalMin"), lmin))
            if na is None:
                p.prove("logical maximum", same(get("logicalMax"), lmax))
                given = lor(*[mkbool(zi(b) != 0) for b in (pmin, pmax) if b is not None])
                if it.truth(given):
                    p.prove("physical range is the one given", land(same(get("physicalMin"), pmin if pmin is not None else 0),
                                                                    same(get("physicalMax"), pmax if pmax is not None else 0)))
                else:
                    p.prove("physical range is the logical one", land(same(get("physicalMin"), lmin), same(get("physicalMax"), lmax)))
                p.prove("no named array", get("namedArray") is None)
            else:
                p.prove("logical maximum of a named array", same(get("logicalMax"), mkint(zi(n) + zi(lmin) - 1)))
                p.prove("named array kept", get("namedArray") is na)
            nou = u is None or (isinstance(u, SymInt) and not it.truth(u))
            if na is not None and nou:
                p.prove("a named array without usage is not a variable, other flags kept",
                        eqi(ints(it, get("flags")), mkint(f.e - 2 * ((f.e / 2) % 2))))
            else:
                p.prove("flags kept", eqi(ints(it, get("flags")), f))
        run_harness(report, "value, named array: " + arr, h)
    return unit


def unit_pad(report):
    for w in (V.Input, V.Output, V.Feature):
        def h(p, it):
            s = p.int("size", 0, keep=True)
            x = it.call(_d.Padding, (w, s))
            p.prove("padding keeps direction and size", land(eqi(ints(it, it.getattr(x, "way")), int(w)), eqi(ints(it, it.getattr(x, "size")), s)))
            y = it.call(_d.Align, (w, s))
            p.prove("alignment request keeps direction and boundary, has no size",
                    land(eqi(ints(it, it.getattr(y, "way")), int(w)), eqi(ints(it, it.getattr(y, "boundary")), s), eqi(ints(it, it.getattr(y, "size")), 0)))
            for z in (x, y):
                p.prove("padding and alignment are constant", mkbool(zi(ints(it, it.getattr(z, "flags"))) % 2 == 1))
        run_harness(report, "padding", h)

    def d(p, it):
        s = p.int("size", 0, keep=True)
        x = it.call(V, (V.Input, None, s), {"logicalMax": 7})
        for n, v in dict(flags=2, logicalMin=1, unit=0, unitExponent=0, designator=0, string=0, count=1).items():
            p.prove("default %s is %d" % (n, v), eqi(ints(it, it.getattr(x, n)), v))
    run_harness(report, "defaults", d)


def unit_tree(report):
    """Reports, collections and containers hold what they are given."""
    def h(p, it):
        blk = Block(p.int("n", 0), None, lambda it, i: i, "members")
        one, two = object(), object()
        u = p.int("usage", 0)
        k = p.int("kind", 0)
        r = it.call(_d.Report, (k, one, two))
        p.prove("a report keeps its id and members", land(eqi(it.getattr(r, "id"), k), [id(x) for x in it.elements(it.getattr(r, "members"))] == [id(one), id(two)]))
        c = it.call(_d.Collection, (k, u, one, two))
        p.prove("a collection keeps kind, usage and members", land(eqi(it.getattr(c, "kind"), k), eqi(it.getattr(c, "usage"), u),
                [id(x) for x in it.elements(it.getattr(c, "members"))] == [id(one), id(two)]))
        t = it.call(_d.TopLevel, (one,))
        it.call_method(t, "append", (two,))
        p.prove("members are appended in order", [id(x) for x in it.elements(it.getattr(t, "members"))] == [id(one), id(two)])
        p.prove("len counts members", it.length(t) == 2)
        p.prove("members are indexed in order", it.getitem(t, 1) is two)
    run_harness(report, "containers", h)


UNITS = [("named array: " + a, unit_value(a)) for a in ("none", "list", "range")] + [("padding", unit_pad), ("containers", unit_tree)]


def check(inp):
    if inp.get("op") == "pad":
        w, s = inp["way"], inp["size"]
        x, y = _d.Padding(w, s), _d.Align(w, s)
        if (int(x.way), x.size, int(y.way), y.boundary, y.size) != (w, s, w, s, 0) or not x.flags & 1 or not y.flags & 1:
            return "padding or alignment of %d" % s
        return None
    kw = dict(inp["kw"])
    u = inp["usage"]
    if isinstance(u, list):
        u = UsageConst("some.Usage", u[0], register=False)
    na = inp.get("na")
    arr = None
    if isinstance(na, list):
        arr = list(na)
    elif isinstance(na, dict):
        arr = UsageRange(na["a"], na["b"])
    if arr is not None:
        kw["namedArray"] = arr
    f = kw.get("flags", 2)
    if inp.get("nf"):
        kw["flags"] = NamedConstant("Flags", f)
    lmin, lmax = kw.get("logicalMin", 1), kw.get("logicalMax")
    r = attempt(lambda: V(inp["way"], u, inp["size"], **kw))
    if lmax is None and arr is None and not f & 1:
        return None if r[0] == "raise" else "a value without bounds is accepted"
    if r[0] != "ok":
        return "refused: %s" % (r,)
    x = r[1]
    n = None if arr is None else len(arr) if isinstance(na, list) else na["b"] - na["a"] + 1
    want = dict(way=inp["way"], size=inp["size"], logicalMin=lmin, unit=kw.get("unit", 0), unitExponent=kw.get("unitExponent", 0),
                designator=kw.get("designator", 0), string=kw.get("string", 0), count=kw.get("count", 1),
                alignment=kw["alignment"] if kw.get("alignment") is not None else min(8, inp["size"]))
    if arr is None:
        want["logicalMax"] = lmax
        a, b = kw.get("physicalMin"), kw.get("physicalMax")
        want["physicalMin"], want["physicalMax"] = (a or 0, b or 0) if a or b else (lmin, lmax)
        want["flags"] = f
    else:
        want["logicalMax"] = n + lmin - 1
        want["flags"] = f if u else f & ~2
        if x.namedArray is not arr and list(x.namedArray) != list(arr):
            return "named array changed"
    num = lambda v: None if v is None else int(v)
    for k, v in want.items():
        if num(getattr(x, k)) != v:
            return "%s is %s, not %s" % (k, num(getattr(x, k)), v)
    if num(x.usage) != num(u):
        return "usage"
    return None


def gen(rng, hints):
    hv = [v for n, v in hints[:30]] or [0]
    val = lambda lo=-300: rng.choice([0, 0, 1, -1, 127, 255, rng.randrange(-40000, 40000), rng.choice(conc.MINED), rng.choice(hv)]) if lo < 0 else \
        abs(rng.choice([0, 1, 2, 7, 8, 9, 16, 32, rng.randrange(300), rng.choice(conc.SMALL_MINED), rng.choice(hv)]))
    if rng.random() < .05:
        return {"op": "pad", "way": rng.choice(WAYS), "size": val(0)}
    kw = {}
    for n in ("logicalMin", "logicalMax", "physicalMin", "physicalMax", "unit", "unitExponent", "designator", "string"):
        if rng.random() < .6:
            kw[n] = val()
    for n in ("count", "alignment"):
        if rng.random() < .5:
            kw[n] = val(0)
    if rng.random() < .7:
        kw["flags"] = rng.choice([rng.randrange(512), rng.choice((0, 1, 2, 3))])
    na = None
    k = rng.random()
    if k < .2:
        na = [rng.randrange(1 << 20) for _ in range(rng.randrange(1, 6))]
    elif k < .4:
        a = rng.randrange(1 << 20)
        na = {"a": a, "b": a + rng.randrange(0, 300)}
    return {"way": rng.choice(WAYS), "usage": rng.choice([None, 0, rng.randrange(1 << 20), [rng.randrange(1 << 20)]]), "size": val(0),
            "kw": kw, "na": na, "nf": "flags" in kw and rng.random() < .5}


def fixed(hints):
    for w in WAYS:
        for s in range(0, 70):
            yield {"op": "pad", "way": w, "size": s}
            yield {"way": w, "usage": None, "size": s, "kw": {"logicalMax": 1}}
    vals = (None, 0, 1, -1, 7)
    for f in (0, 1, 2, 3, 6, 64 | 2):
        for u in (None, 0, 5, [5]):
            for na in (None, [1], [3, 4, 9], {"a": 4, "b": 4}, {"a": 4, "b": 9}):
                for lm in (None, 0, -5):
                    for lx in (None, 0, 9):
                        for a in vals:
                            for b in (None, 0, 9):
                                kw = {"flags": f}
                                for n, v in (("logicalMin", lm), ("logicalMax", lx), ("physicalMin", a), ("physicalMax", b)):
                                    if v is not None:
                                        kw[n] = v
                                yield {"way": 8, "usage": u, "size": 5, "kw": kw, "na": na, "nf": bool(f & 2)}
