"""C09: the source text of a decompiled description."""
import ast
import functools
import io
import z3
from ..lib import *
from ..source import *
from ..interp import Frame
from ..exstate import num, State, X
from .. import conc, hid, dec, desc

LEVEL = "proof"
TRUSTED = ["vf/interp.py (AST semantics of Python, cross-checked against CPython by selftest)", "z3 / cvc5",
           "CPython's own parser (ast.parse) reads the text; a name stands for each symbolic part, which may only be a whole argument or list element "
           "(vf/source.py), so that any expression, digits included, can take its place",
           "induction over the nesting: each part of a description writes one argument followed by a comma (units element, container), which evaluates to an equal part; "
           "the whole is a module that binds `descriptor` (unit module)"]
ASSUMPTIONS = ["values as a decompilation makes them: numbers, flags and units named as item constructors name them (evaluated for all 512 flags and all units), "
               "usages named as Usage.lookup names them (unit names); flags up to 511; a named array has an entry, and its usage, if any, is not 0",
               "named constants compute as their numbers (C11)",
               "usage 0 (undefined) is no usage"]
RULE = "a case = one descriptor decompiled, its source text run, and both descriptions compared attribute by attribute and compiled; distinct by its JSON text"
QUICK_S, QUICK_N, THOROUGH_S = 15, 1500, 240
WAYS = {int(c.tag): c.tag.name for c in (conc._item.Input, conc._item.Output, conc._item.Feature)}
SAME = ("way", "usage", "size", "flags", "logicalMin", "logicalMax", "unit", "unitExponent", "designator", "string", "count", "alignment")


@functools.lru_cache(None)
def kinds():
    return {k: str(_item.Collection(k).value) for k in range(64) if isinstance(_item.Collection(k).value, NamedConstant)}


@functools.lru_cache(None)
def flag_names(way):
    c = {8: _item.Input, 9: _item.Output, 11: _item.Feature}[way]
    return {f: str(c(f).value) for f in range(512)}


@functools.lru_cache(None)
def units():
    vs = {int(v) for v in vars(_item.Unit).values() if isinstance(v, NamedConstant)} | {0}
    return {v: str(_item.Unit(v).value) for v in vs if isinstance(_item.Unit(v).value, NamedConstant)}


_ns = []


def namespace():
    """What the text has imported, when it comes to the description."""
    if not _ns:
        o = io.StringIO()
        _d.TopLevel().accept(_dumper.Dumper(o))
        ns = {"__name__": "vf_source"}
        for s in ast.parse(o.getvalue()).body:
            if isinstance(s, (ast.Import, ast.ImportFrom)):
                exec(compile(ast.Module([s], []), "<source>", "exec"), ns)      # noqa: S102
        _ns.append(ns)
    return _ns[0]


def depth_attr():
    """The attribute that keeps the depth, and its value at the first two levels."""
    o = _dumper.Dumper(io.StringIO())
    a = dict(o.__dict__)
    o.enter(_d.TopLevel())
    b = dict(o.__dict__)
    o.enter(_d.Report(1))
    c = dict(o.__dict__)
    ch = [k for k in set(a) | set(b) | set(c) if not (k in a and k in b and k in c and a[k] is b[k] is c[k])]
    if len(ch) != 1 or not all(type(x.get(ch[0])) is int for x in (a, b, c)) or c[ch[0]] - b[ch[0]] != b[ch[0]] - a[ch[0]] or b[ch[0]] <= a[ch[0]]:
        raise Unsupported("depth kept another way")
    return ch[0], a[ch[0]], b[ch[0]] - a[ch[0]]


def dumper(p, it):
    """A dumper at any depth below the top."""
    name, base, step = depth_attr()
    out = Out()
    d = it.call(_dumper.Dumper, (out,))
    if set(d.__dict__) != set(_dumper.Dumper(io.StringIO()).__dict__):
        raise Unsupported("dumper of another shape")
    constant(d, *[n for n in d.__dict__ if n != name])
    k = p.int("depth", 1)
    here = mkint(base + step * k.e)
    d.__dict__[name] = here
    it.re_sub = re_sub
    return d, out, lambda: eqi(d.__dict__[name], here)


def usage_of(p, kind, name):
    """A usage: as Usage.lookup gives it, or a number of a page"""
    v = p.int(name, 0, (1 << 32) - 1, keep=True)
    if kind == "number":
        p.assume(v.e >= 65536)
        return v
    if kind == "small number":
        p.assume(v.e < 65536)
        return v
    if kind == "registered":
        p.assume(v.e >= 65536)
        return abstract_usage(v)
    u = object.__new__(UsageConst)
    u.value, u.kinds, u.name = v, set(), SymStr([HexP(v, "0x")])
    return u


KINDS = ("number", "registered", "other", "small number")


def one_argument(p, it, out):
    """The part of a description the text evaluates to."""
    t = Text(p, it, namespace())
    t.out.append("f(\n")
    t.add(out.log)
    t.out.append("\n)")
    src = t.source()
    try:
        call = ast.parse(src, mode="eval").body
    except SyntaxError:
        p.prove("source: it is Python", False)
        raise PathEnd
    ok = isinstance(call, ast.Call) and isinstance(call.func, ast.Name) and call.func.id == "f" and len(call.args) == 1 and not call.keywords \
        and src[:-1].rstrip().endswith(",") and "#" not in src and "\\" not in src
    p.prove("source: one argument, and a comma", ok)
    if not ok:
        raise PathEnd
    return t.value(call.args[0])


def same(p, it, a, b):
    """Two values tell the same."""
    p.prove("source: a value of the same kind", type(b) is type(a))
    if type(b) is not type(a):
        raise PathEnd
    if isinstance(a, (_d.Padding, _d.Align)):
        for k in ("way", "size", "flags") + (("boundary",) if isinstance(a, _d.Align) else ()):
            p.prove("source: same " + k, eqi(num(it, getattr(a, k)), num(it, getattr(b, k))))
        return
    for k in SAME:
        p.prove("source: same " + k, eqi(num(it, getattr(a, k)), num(it, getattr(b, k))))
    na, nb = a.namedArray, b.namedArray
    if na is None:
        p.prove("source: no named array", nb is None)
        for k in ("physicalMin", "physicalMax"):
            p.prove("source: same " + k, eqi(num(it, getattr(a, k)), num(it, getattr(b, k))))
    elif isinstance(na, UsageRange):
        p.prove("source: same named array", land(type(nb) is UsageRange and eqi(it.to_int(na.min), it.to_int(nb.min)), type(nb) is UsageRange and eqi(it.to_int(na.max), it.to_int(nb.max))))
    else:
        p.prove("source: same named array", isinstance(nb, list) and len(nb) == 1 and nb[0] is na[0])


def unit_value(usage, array, unit, way=8, aligned=None):
    def unit_(report):
        def h(p, it):
            d, out, still = dumper(p, it)
            w = p.int("way", keep=True)
            wayc = named_by(p, w, WAYS)
            f = p.int("flags", 0, 511, keep=True)
            args = {"way": wayc, "size": p.int("size", 0, keep=True), "flags": named_by(p, f, flag_names(way)),
                    "logicalMin": p.int("logicalMin", keep=True), "designator": p.int("designator", 0, keep=True), "string": p.int("string", 0, keep=True),
                    "alignment": p.int("alignment", 0, keep=True) if (p.choose(2) if aligned is None else aligned) else None}
            u = args["usage"] = None if usage is None else usage_of(p, usage, "usage")
            if array is None:
                v = p.int("unit", 0, (1 << 32) - 1, keep=True)
                args.update(logicalMax=p.int("logicalMax", keep=True), physicalMin=p.int("physicalMin", keep=True), physicalMax=p.int("physicalMax", keep=True),
                            unit=named_by(p, v, units()) if unit else v, unitExponent=p.int("exponent", keep=True), count=p.int("count", 0, keep=True))
            else:
                if u is not None:
                    p.assume(zi(it.to_int(u)) != 0)
                if array == "range":
                    na = it.born(object.__new__(UsageRange))
                    na.min, na.max = usage_of(p, KINDS[p.choose(4)], "min"), usage_of(p, KINDS[p.choose(4)], "max")
                    p.assume(zi(it.to_int(na.min)) < zi(it.to_int(na.max)))
                else:
                    n = p.int("n", 1)
                    fn = z3.Function("entries", z3.IntSort(), z3.IntSort())

                    def entry(it, i):
                        e = fn(zi(i))
                        it.path.assume(z3.And(e >= 0, e < (1 << 32)))
                        if array == "list of numbers":
                            return SymInt(e)
                        if array == "list":
                            return abstract_usage(SymInt(e))
                        x = object.__new__(UsageConst)
                        x.value, x.kinds, x.name = SymInt(e), set(), SymStr([HexP(SymInt(e), "0x")])
                        return x
                    na = [Block(n, None, entry, "entries")]
                args["namedArray"] = na
            a = it.call(_d.Value, (), args)
            it.call_method(a, "accept", (d,))
            p.prove("source: the depth stays", still())
            same(p, it, a, one_argument(p, it, out))
        run_harness(report, "value", h, items=True)
    return unit_


def unit_pads(report):
    for cls in (_d.Padding, _d.Align):
        def h(p, it):
            d, out, still = dumper(p, it)
            a = it.call(cls, (named_by(p, p.int("way", keep=True), WAYS), p.int("size", 0, keep=True)))
            it.call_method(a, "accept", (d,))
            p.prove("source: the depth stays", still())
            same(p, it, a, one_argument(p, it, out))
        run_harness(report, cls.__name__, h, items=True)


def container(p, it, what, usage):
    blk = members(p)
    if what == "top":
        a = it.call(_d.TopLevel, ())
    elif what == "report":
        a = it.call(_d.Report, (p.int("id", 0, 255, keep=True),))
    else:
        k = p.int("kind", 0, (1 << 32) - 1, keep=True)
        if what == "number":
            p.assume(z3.And([k.e != n for n in kinds()]))
        a = it.call(_d.Collection, (named_by(p, k, kinds()) if what == "named" else k, None if usage is None else usage_of(p, usage, "usage")))
    a.members = [blk]
    return a, blk


def same_container(p, it, a, b, blk):
    p.prove("source: of the same kind", type(a) is type(b))
    if type(a) is not type(b):
        raise PathEnd
    if type(a) is _d.Report:
        p.prove("source: same id", eqi(it.to_int(a.id), it.to_int(b.id)))
    if type(a) is _d.Collection:
        p.prove("source: same kind of collection", eqi(it.to_int(a.kind), it.to_int(b.kind)))
        p.prove("source: same usage", eqi(num(it, a.usage), num(it, b.usage)))
    ms = b.members
    if ms == []:
        p.prove("source: every member", mkbool(zi(blk.n) == 0))
    else:
        p.prove("source: every member, in order", isinstance(ms, list) and len(ms) == 1 and ms[0] is getattr(blk, "vf_again", 0))


def unit_container(what, usage):
    def unit_(report):
        def h(p, it):
            d, out, still = dumper(p, it)
            a, blk = container(p, it, what, usage)
            it.call_method(a, "accept", (d,))
            p.prove("source: the depth is back", still())
            same_container(p, it, a, one_argument(p, it, out), blk)
        run_harness(report, "container", h, items=True)

        def down(p, it):
            d, out, still = dumper(p, it)
            name, base, step = depth_attr()
            was = d.__dict__[name]
            a, blk = container(p, it, what, usage)
            it.call_method(d, "enter", (a,))
            p.prove("source: members are one level below", mkbool(zi(d.__dict__[name]) == zi(was) + step))
        run_harness(report, "depth", down, items=True)
    return unit_


def unit_module(report):
    import hrdc.descriptor.compiler as comp

    def h(p, it):
        out = Out()
        d = it.call(_dumper.Dumper, (out,))
        a, blk = container(p, it, "top", None)
        it.call_method(a, "accept", (d,))
        t = Text(p, it, namespace())
        t.add(out.log)
        try:
            tree = ast.parse(t.source())
        except SyntaxError:
            p.prove("source: it is Python", False)
            raise PathEnd
        name = ("__main__", "x")[p.choose(2)]
        ns = {"__name__": name, "__builtins__": __builtins__}
        calls = []

        def main(it, args, kwargs):
            calls.append((args, kwargs))
        it.hooks[comp.compile_main] = main
        for s in tree.body:
            if isinstance(s, (ast.Import, ast.ImportFrom)):
                exec(compile(ast.Module([s], []), "<source>", "exec"), ns)      # noqa: S102
                continue
            s, vals = t.bind(s)
            ns.update(vals)
            fr = Frame(ns, None, None, "<module>", None)
            fr.vars = ns
            it.stmt(s, fr)
        b = ns.get("descriptor")
        same_container(p, it, a, b, blk)
        p.prove("source: compiled when run, not when imported", len(calls) == (name == "__main__") and all(c[0] == (b,) and c[0][0] is b and not c[1] for c in calls))
    run_harness(report, "module", h, items=True)


def unit_names(report):
    ns = namespace()
    bad = []
    for k, u in UsageConst.reverse.items():
        if ground(ns, str(u)) != k:
            bad.append((k, str(u)))
    report.add("every registered usage is written as an expression that stands for it", "failed" if bad or not UsageConst.reverse else "proved", "evaluation", 0.0, None, bad[:5] or None)
    report.add("the names of the tables are found", "proved" if len(kinds()) == 7 and len(WAYS) == 3 and len(units()) > 5 else "failed", "evaluation", 0.0)

    def lookup(p, it):
        v = p.int("usage", 0, (1 << 32) - 1, keep=True)
        u = it.call(UsageConst.lookup, (v,))
        ps = it.to_str(u)
        ps = ps.p if isinstance(ps, SymStr) else ()
        p.prove("a usage found by number is written by its registered name, or its number", len(ps) == 1 and (
            isinstance(ps[0], HexP) and ps[0].spec == "0x" and eqi(ps[0].v, v) or isinstance(ps[0], Opaque) and ps[0].meaning and ps[0].meaning[0] == "usage" and eqi(ps[0].meaning[1], v)))
    run_harness(report, "lookup", lookup)

    def helper(p, it):
        st = State(p, it, small=True)
        i = p.int("index", 0)
        r = it.call_method(st.x, "usage", (i,))
        if r is None:
            return
        if isinstance(r, SymInt):
            p.prove("a usage kept as a number has a page", mkbool(r.e >= 65536))
            return
        ps = r.name.p if isinstance(r, UsageConst) and isinstance(r.name, SymStr) else ()
        p.prove("a decompiled usage is written by its registered name, or its number", len(ps) == 1 and (
            isinstance(ps[0], HexP) and ps[0].spec == "0x" and eqi(ps[0].v, it.to_int(r)) or isinstance(ps[0], Opaque) and ps[0].meaning and ps[0].meaning[0] == "usage"
            and eqi(ps[0].meaning[1], it.to_int(r))))
    if hasattr(X, "usage"):
        run_harness(report, "usage", helper, items=True)


UNITS = list()
for _n in (0, 1):
    for _u in ("number", None, "registered", "other", "small number"):
        for _al in (0, 1):
            UNITS.append(("value %s unit %d aligned %d" % (_u, _n, _al), unit_value(_u, None, _n, aligned=_al)))
UNITS += [("names", unit_names), ("pads", unit_pads), ("module", unit_module), ("report", unit_container("report", None)), ("top", unit_container("top", None))]
for _k in ("named", "number"):
    for _u in (None,) + KINDS:
        UNITS.append(("collection %s %s" % (_k, _u), unit_container(_k, _u)))
for _u in (None,) + KINDS:
    for _a in ("range", "list", "list of numbers", "list of others"):
        UNITS.append(("value %s %s" % (_u, _a), unit_value(_u, _a, 0)))


def undefined(events):
    """usage 0 (undefined) is no usage"""
    return [e[:10] + ((() if e[10] == (0,) else e[10]),) + e[11:] if e[0] == "ctl" else e for e in events]


def named_tree(t):
    """The description of a tree, its directions, flags and units named as the package names them."""
    if t[0] in ("top", "report", "coll"):
        h = {"top": 1, "report": 2, "coll": 3}[t[0]]
        o = desc.build(t[:h])
        for m in t[h:]:
            o.append(named_tree(m))
        return o
    if t[0] != "val":
        return desc.build([t[0], WAYS_BY[t[1]], t[2]])
    v = dict(t[1], way=WAYS_BY[t[1]["way"]], c=0)
    if "flags" in v:
        v["flags"] = _item.Input(v["flags"]).value
    if "unit" in v:
        v["unit"] = _item.Unit(v["unit"]).value
    if t[1].get("c") and v["usage"]:        # (no usage 0: the decompiler gives it to no value, C07)
        v["usage"] = UsageConst.lookup(v["usage"])
    return desc.build(["val", v])


WAYS_BY = {8: _d.Value.Input, 9: _d.Value.Output, 11: _d.Value.Feature}


def check_tree(t):
    root = named_tree(t)
    src = dec.dump(root)
    try:
        again = dec.run_source(src)["descriptor"]
    except Exception as e:      # noqa: BLE001
        return "%s: %s running %r" % (type(e).__name__, e, src)
    a, b = dec.shape(root), dec.shape(again)
    return None if a == b else "%s became %s by %r" % (a, b, src)


def check(inp):
    if "tree" in inp:
        return check_tree(inp["tree"])
    ts = [tuple(t) for t in inp["items"]]
    try:
        s = dec.Scan(ts)
    except hid.TooBig:
        return "skip"
    if s.out == "size" or s.out in ("unbalanced", "data item outside any collection", "no collection", "report ids", "locals", "flags"):
        return "skip"
    for binary in (False, True):
        try:
            root = dec.decompile(ts, binary)
        except Exception:       # noqa: BLE001 - C07's matter
            return "skip"
        src = dec.dump(root)
        try:
            ns = dec.run_source(src)
            again = ns["descriptor"]
            ns["compile_main"]
        except Exception as e:      # noqa: BLE001
            return "%s: %s running %r" % (type(e).__name__, e, src)
        a, b = dec.shape(root), dec.shape(again)
        if a != b:
            return "%s became %s by %r" % (a, b, src)
        if not binary:
            program, compiled, imported = dec.run_program(src)
            if program != compiled or imported != ("", None):
                return "run as a program it prints %r and not %r, imported %r: %r" % (program, compiled, imported, src)
        try:
            x, y = undefined(hid.events(dec.compile_(root))), undefined(hid.events(dec.compile_(again)))
        except hid.TooBig:
            continue
        m = dec.diff(x, y)
        if m and "KF3" not in s.kf:
            return "compiles to something else: %s: %r" % (m, src)
    return None


def gen(rng, hints):
    return {"tree": desc.gen_tree(rng, hints)} if rng.random() < .4 else dec.gen(rng, hints)


def smaller(inp):
    if "tree" in inp:
        return [{"tree": t} for t in desc.smaller(inp["tree"])]
    return dec.smaller(inp)


def fixed(hints):
    for l in dec.fixed_streams():
        yield {"items": l}
    E = [[0, 12, 0]]
    us = dec.some_usages()
    for i in range(0, len(us), 40):
        part = us[i:i + 40]
        yield {"items": [[2, 0, part[0]], [0, 10, 1], [1, 1, 0], [1, 2, 1], [1, 7, 1], [1, 9, len(part)]] + [[2, 0, u] for u in part] + [[0, 8, 2]] + E}
        yield {"items": [[2, 0, part[0]], [0, 10, 1], [1, 1, 1], [1, 2, len(part)], [1, 7, 1], [1, 9, 1]] + [[2, 0, u] for u in part] + [[0, 8, 0]] + E}
