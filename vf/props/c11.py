"""C11: named constants behave as the integers they stand for."""
import operator
import z3
from ..lib import *
from .. import conc
from ..interp import HashOf
import hrdc.descriptor as _pub

LEVEL = "proof"
TRUSTED = ["vf/interp.py (AST semantics of Python, cross-checked against CPython by selftest)", "z3 / cvc5"]
ASSUMPTIONS = ["shift counts 0..32; all other operands any integer",
               "x & y of two unknown integers is an uninterpreted function with its range facts (both sides use the same one)"]
RULE = "a case = one operator with two operand values and the way they are given; distinct by its JSON text"
QUICK_S, QUICK_N, THOROUGH_S = 5, 4000, 60

BIN = {"+": operator.add, "*": operator.mul, "&": operator.and_, "|": operator.or_, "<<": operator.lshift, ">>": operator.rshift,
       "==": operator.eq, "!=": operator.ne, "<": operator.lt}
import ast as _ast
AST = {"+": _ast.Add, "*": _ast.Mult, "&": _ast.BitAnd, "|": _ast.BitOr, "<<": _ast.LShift, ">>": _ast.RShift}
# which forms are supported: (left, right); n = named constant, u = usage, i = int
FORMS = {o: ("nn", "ni", "uu", "ui", "nu") for o in BIN}
FORMS["&"] += ("in", "iu")
FORMS["|"] += ("in", "iu")
FORMS["=="] += ("in", "iu")
FORMS["!="] += ("in", "iu")


def operand(p, v, how):
    if how == "i":
        return v
    if how == "n":
        return named(p, v)
    u = object.__new__(UsageConst)
    u.name, u.value, u.kinds = SymStr([Opaque("u", nonempty=True)]), v, set()
    return u


def unit_bin(op):
    def unit(report):
        for form in FORMS[op]:
            def h(p, it):
                a = p.int("a", keep=True)
                b = p.int("b", keep=True)
                if op in ("<<", ">>"):
                    p.assume(z3.And(b.e >= 0, b.e <= 32))
                x, y = operand(p, a, form[0]), operand(p, b, form[1])
                if op == "==":
                    r = it.eq(x, y)
                elif op == "!=":
                    r = it.ne(x, y)
                elif op == "<":
                    r = it.compare(_ast.Lt(), x, y)
                else:
                    r = it.binop(AST[op](), x, y)
                want = BIN[op](a, b)
                nm = "%s %s %s" % (form[0], op, form[1])
                if op in ("==", "!=", "<"):
                    p.prove(nm + " compares as the integers do", zb(want) == zb(r) if not isinstance(r, int) or isinstance(r, bool) else False)
                else:
                    p.prove(nm + " gives an integer", sym.isint(r))
                    p.prove(nm + " gives what the integers give", eqi(r, want))
            run_harness(report, "%s %s %s" % (form[0], op, form[1]), h)
    return unit


def unit_unary(report):
    for how in "nu":
        def h(p, it):
            a = p.int("a", keep=True)
            x = operand(p, a, how)
            p.prove("int(%s) is the number" % how, eqi(it.to_int(x), a))
            p.prove("~%s is the inverted number" % how, eqi(it.call_method(x, "__invert__"), -a - 1))
            hv = it.call(hash, (x,))
            hw = it.call(hash, (a,))
            p.prove("hash of %s is that of the number" % how, isinstance(hv, HashOf) and isinstance(hw, HashOf) and eqi(hv.v, hw.v))
            p.prove("text of %s is its name" % how, it.to_str(x) == x.name)
        run_harness(report, "unary " + how, h)

    def g(p, it):
        a = p.int("a", keep=True)
        nm = SymStr([Opaque("n", nonempty=True)])
        x = it.call(NamedConstant, (nm, a))
        p.prove("constructor keeps the number", eqi(it.to_int(x), a))
        p.prove("constructor keeps the name", it.to_str(x) == nm)
        it.bigdicts.pop(id(UsageConst.reverse), None)
        y = it.call(UsageConst, (nm, a), {"register": False})
        p.prove("usage constructor keeps number and name", land(eqi(it.to_int(y), a), it.to_str(y) == nm))
    run_harness(report, "constructor", g)


D = _item.DataItem
FLAGS = dict(Data=0, Constant=1, Array=0, Variable=2, Absolute=0, Relative=4, NoWrap=0, Wrap=8, Linear=0, NonLinear=16,
             PreferredState=0, NoPreferred=32, NoNullPosition=0, NullState=64, NonVolatile=0, Volatile=128, BitField=0, BufferedBytes=256)
KINDS = dict(Physical=0, Application=1, Logical=2, Report=3, NamedArray=4, UsageSwitch=5, UsageModifier=6)
WAYS = dict(Input=8, Output=9, Feature=11)
TAGS = {"MainItem": dict(Input=8, Output=9, Feature=11, Collection=10, EndCollection=12),
        "GlobalItem": dict(UsagePage=0, LogicalMinimum=1, LogicalMaximum=2, PhysicalMinimum=3, PhysicalMaximum=4, UnitExponent=5,
                           Unit=6, ReportSize=7, ReportID=8, ReportCount=9, Push=10, Pop=11),
        "LocalItem": dict(Usage=0, UsageMinimum=1, UsageMaximum=2, DesignatorIndex=3, DesignatorMinimum=4, DesignatorMaximum=5,
                          StringIndex=7, StringMinimum=8, StringMaximum=9, Delimiter=10)}


def published():
    """(where, name, number, check the printed name)"""
    for n, v in FLAGS.items():
        yield D, n, v, True
        yield _pub.Value, n, v, True
    for n, v in KINDS.items():
        yield _item.Collection, n, v, True
        yield _pub.Collection, n, v, True
    for n, v in WAYS.items():
        yield _pub.Value, n, v, True
    for n, v in dict(Main=0, Global=1, Local=2).items():
        yield _item.Item, n, v, True
    for c, t in TAGS.items():
        for n, v in t.items():
            yield getattr(_item, c), n, v, True


def published_bad():
    bad = []
    for where, n, v, nm in published():
        c = getattr(where, n, None)
        if c is None or int(c) != v or (isinstance(c, NamedConstant) and str(c) != n):
            bad.append("%s.%s = %s" % (where.__name__, n, None if c is None else (str(c), int(c))))
    return bad


def unit_published(report):
    bad = published_bad()
    report.add("published flags, kinds, directions and tags have HID's numbers and print as their names",
               "failed" if bad else "proved", "evaluation", 0.0, None, bad)


UNITS = [("operator " + o, unit_bin(o)) for o in BIN] + [("unary", unit_unary), ("published", unit_published)]


def conc_operand(v, how):
    return v if how == "i" else NamedConstant("nm", v) if how == "n" else UsageConst("u.nm", v, register=False)


def check(inp):
    op = inp["op"]
    if op == "published":
        bad = published_bad()
        return "; ".join(bad) or None
    if op == "unary":
        x = conc_operand(inp["a"], inp["form"])
        if int(x) != inp["a"] or ~x != ~inp["a"] or hash(x) != hash(inp["a"]) or str(x) not in ("nm", "u.nm"):
            return "unary operation on %d" % inp["a"]
        if inp["a"] not in {x: 1} or x not in {inp["a"]: 1}:
            return "dict key %d" % inp["a"]
        return None
    a, b, f = inp["a"], inp["b"], inp["form"]
    got = BIN[op](conc_operand(a, f[0]), conc_operand(b, f[1]))
    want = BIN[op](a, b)
    if type(got) not in (int, bool) or got != want:
        return "%s: %d %s %d gives %s, not %s" % (f, a, op, b, got, want)
    return None


VALS = sorted({x for v in [0, 1, 2, 3, 4, 5, 7, 8, 16, 31, 32, 255, 256, 511, 65535, 65536, 1 << 31, (1 << 32) - 1] for x in (v, -v)})


def gen(rng, hints):
    op = rng.choice(list(BIN) + ["unary"])
    val = lambda: rng.choice([rng.choice(VALS), rng.randrange(-(1 << 33), 1 << 33), rng.choice(conc.MINED)] + [v for n, v in hints[:20]])
    a, b = val(), val()
    if rng.random() < .3:
        b = a + rng.randrange(-1, 2)
    if op == "unary":
        return {"op": op, "a": a, "form": rng.choice("nu")}
    if op in ("<<", ">>"):
        b = rng.randrange(0, 33)
    return {"op": op, "a": a, "b": b, "form": rng.choice(FORMS[op])}


def fixed(hints):
    yield {"op": "published"}
    for op in BIN:
        for f in FORMS[op]:
            for a in VALS:
                for b in VALS:
                    if op not in ("<<", ">>") or 0 <= b <= 32:
                        yield {"op": op, "a": a, "b": b, "form": f}
    for a in VALS:
        for f in "nu":
            yield {"op": "unary", "a": a, "form": f}
