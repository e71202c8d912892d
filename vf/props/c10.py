"""C10: usages, usage tables and usage ranges."""
import importlib
import json
import os
import pkgutil
import types
import z3
from ..lib import *
from .. import conc
from ..conc import attempt

LEVEL = "proof"
TRUSTED = ["vf/interp.py (AST semantics of Python, cross-checked against CPython by selftest)", "z3 / cvc5",
           "vf/golden_usages.json: the tables as reviewed against the HID usage tables"]
ASSUMPTIONS = ["the recorded table is what the HID usage tables say (reviewed once, by hand)",
               "usages are non-negative", "kinds of usages (collection, control, ...) are not part of the property"]
RULE = "a case = one usage value looked up, one (page, number) pair, one range or one list tried as a range; table entries one each; distinct by JSON text"
QUICK_S, QUICK_N, THOROUGH_S = 5, 6000, 60
GOLD = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "golden_usages.json")


def modules():
    import hrdc.usage as pkg
    out = {}
    for m in pkgutil.iter_modules(pkg.__path__):
        if m.name == "usage":
            continue
        try:
            out[m.name] = importlib.import_module("hrdc.usage." + m.name)
        except Exception as e:      # noqa: BLE001
            out[m.name] = e
    return out


def published():
    """attribute path -> value, for every usage constant of every table module."""
    out = {}
    for mn, m in modules().items():
        if isinstance(m, types.ModuleType):
            for n, u in vars(m).items():
                if isinstance(u, UsageConst):
                    out["%s.%s" % (mn, n)] = int(u)
    return out


def golden():
    return json.load(open(GOLD))


def find(path):
    ms = modules()
    mn, n = path.split(".", 1)
    return getattr(ms[mn], n)


# ------------------------------------------------------------------ obligations
def unit_table(report):
    def ob(name, bad, n=1):
        report.add(name, "failed" if bad or not n else "proved", "evaluation", 0.0, None, bad[:5] or None)
    ms = modules()
    ob("every usage table can be imported", [k for k, m in ms.items() if not isinstance(m, types.ModuleType)], len(ms))
    ms = {k: m for k, m in ms.items() if isinstance(m, types.ModuleType)}
    g, now = golden(), published()
    for mn in sorted({k.split(".")[0] for k in g["constants"]}):
        sub = {k: v for k, v in g["constants"].items() if k.startswith(mn + ".")}
        ob("table %s: every constant has its page and number" % mn, ["%s=%s not %s" % (k, hex(now[k]) if k in now else "missing", hex(v)) for k, v in sub.items() if now.get(k) != v], len(sub))
    env = dict(ms)
    bad, byval, clash = [], {}, []
    for k in now:
        u = find(k)
        x = attempt(eval, str(u), dict(env))
        if x[0] != "ok" or not isinstance(x[1], UsageConst) or int(x[1]) != int(u):
            bad.append((k, str(u)))
        o = byval.setdefault(int(u), u)
        if o is not u:
            clash.append((k, str(o)))
    ob("every constant's printed name evaluates to a usage of its value", bad, len(now))
    ob("no two constants share a value", clash, len(now))
    bad = []
    for fn, base in g["functions"].items():
        for n in list(range(0, 2048)) + [0xfffe, 0xffff]:
            x = attempt(lambda: find(fn)(n))
            ok = x[0] == "ok" and int(x[1]) == base + n
            y = attempt(eval, str(x[1]), dict(env)) if ok else x
            if not ok or y[0] != "ok" or int(y[1]) != base + n:
                bad.append((fn, n))
    ob("numbered usages have their page and number and their name evaluates to them", bad)
    bad = []
    for k, u in list(UsageConst.reverse.items()):
        if not (type(k) is int and isinstance(u, UsageConst) and int(u) == k):
            bad.append((k, str(u)))
        else:
            y = attempt(eval, str(u), dict(env))
            if y[0] != "ok" or int(y[1]) != k:
                bad.append((k, str(u)))
    ob("every registered usage is filed under its value, and its name evaluates to it", bad, len(UsageConst.reverse))


def unit_numbered(report):
    """Button(n) and Ordinal(n) for every n."""
    ms = modules()
    for fn, base in golden()["functions"].items():
        def h(p, it):
            n = p.int("n", 0, 65535, keep=True)
            it.may_change.add(id(UsageConst.reverse))
            u = it.call(find(fn), (n,))
            for k, r in p.overlay.get(id(UsageConst.reverse), []):
                p.prove(fn + ": only the usage itself is registered, under its value", r is u and eqi(ints(it, k), ints(it, u)))
            p.prove(fn + ": value for any number", eqi(ints(it, u), mkint(base + n.e)))
            t = it.to_str(u)
            p.prove(fn + ": name for any number", isinstance(t, SymStr) and len(t.p) == 3 and t.p[0] == fn + "(" and t.p[2] == ")"
                    and isinstance(t.p[1], Dec) and eqi(t.p[1].v, n))
        run_harness(report, fn, h)


def unit_lookup(report):
    def h(p, it):
        v = p.int("value", 0, keep=True)
        how = p.choose(3)
        x = [v, named(p, v), None][how]
        if how == 2:
            x = object.__new__(UsageConst)
            x.name, x.value, x.kinds = SymStr([Opaque("n", parts=("a", "b"), nonempty=True)]), v, set()
        u = it.call(UsageConst.lookup, (x,))
        p.prove("lookup gives a usage", isinstance(u, UsageConst))
        p.prove("lookup gives that value", eqi(ints(it, u), v))
        if how:
            p.prove("a usage given by name keeps its name", it.getattr(u, "name") is it.getattr(x, "name"))
        if how == 0:
            t = it.to_str(u)
            ok = isinstance(t, SymStr) and len(t.p) == 1 and (
                (isinstance(t.p[0], HexP) and eqi(t.p[0].v, v)) or (isinstance(t.p[0], Dec) and eqi(t.p[0].v, v))
                or (isinstance(t.p[0], Opaque) and t.p[0].meaning and t.p[0].meaning[0] == "usage" and eqi(t.p[0].meaning[1], v)))
            if isinstance(t, str):
                ok = attempt(int, t, 0)[0] == "ok" and eqi(v, int(t, 0))
            p.prove("the printed form of a looked up usage stands for its value", ok)
    run_harness(report, "lookup", h)


def unit_split(report):
    def h(p, it):
        v = p.int("value", 0, keep=True)
        kind = p.choose(4)
        if kind == 0:
            u = it.call(UsageConst.lookup, (v,))
        elif kind == 3:
            u = it.call(UsageConst.lookup, (named(p, v),))
            word = Opaque("word without a dot", nonempty=True)
            u.name = SymStr([Opaque("n", parts=(SymStr([word]),), nonempty=True)])
        elif kind == 1:
            u = it.call(UsageConst.lookup, (named(p, v),))
            u.name = SymStr([Opaque("n", parts=(SymStr([Opaque("a", nonempty=True)]), SymStr([Opaque("b", nonempty=True)])), nonempty=True)])
        else:
            u = abstract_usage(v)
        r = it.elements(it.call_method(u, "split"))
        p.prove("split gives two parts", len(r) == 2)
        p.prove("split: page", eqi(ints(it, r[0]), mkint(v.e / 65536)))
        p.prove("split: number in page", eqi(ints(it, r[1]), mkint(v.e % 65536)))
    run_harness(report, "split", h)


def unit_page(report):
    def h(p, it):
        n = p.int("page", 0, keep=True)
        x = it.call(UsageConst.page, ([n, named(p, n)][p.choose(2)],))
        p.prove("page keeps its number", eqi(ints(it, x), n))
    run_harness(report, "page", h)

    def g(p, it):
        a = p.int("page", 0, 65535, keep=True)
        b = p.int("number", 0, 65535, keep=True)
        k = p.choose(2)
        x = it.call(UsageConst.inpage, (named(p, a) if k else a, named(p, b) if k else b))
        p.prove("a number in a page is that number", eqi(ints(it, x), b))
    run_harness(report, "inpage", g)


def unit_range(report):
    def h(p, it):
        a = p.int("first", 0, keep=True)
        b = p.int("last", 0, keep=True)
        p.assume(b.e >= a.e)
        k = p.choose(2)
        x = it.call(UsageRange, (named(p, a) if k else a, named(p, b) if k else b))
        p.prove("range: length", eqi(ints(it, it.length(x)), mkint(b.e - a.e + 1)))
        i = p.int("index", 0, keep=True)
        p.assume(i.e <= b.e - a.e)
        u = it.getitem(x, i)
        p.prove("range: element is a usage of the right value", land(isinstance(u, UsageConst), eqi(ints(it, u), mkint(a.e + i.e))))
        xs = it.elements(x)
        if len(xs) != 1 or not isinstance(xs[0], Block):
            raise Unsupported("iteration in pieces")
        blk = xs[0]
        p.prove("range: iteration visits every element once", blk.n is not None and eqi(blk.n, mkint(b.e - a.e + 1)))
        j = p.int("j", 0)
        p.assume(j.e <= b.e - a.e)
        u = blk.get(it, j)
        p.prove("range: iteration yields usages in order", land(isinstance(u, UsageConst), eqi(ints(it, u), mkint(a.e + j.e))))
    run_harness(report, "range", h)


def unit_from_array(report):
    def h(p, it):
        n = p.int("n", 0, keep=True)
        f = z3.Function("arr", z3.IntSort(), z3.IntSort())
        k = p.choose(2)
        arr = [Block(n, None, lambda it, i: SymInt(f(zi(i))) if k else named(it.path, SymInt(f(zi(i)))), "arr")]
        r, x = raises(it, lambda: it.call(UsageRange.from_array, (arr,)))
        if r:
            j = z3.Int("w")
            # unit "from_array induction"
            p.assume(z3.Implies(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < n.e - 1), f(j) + 1 == f(j + 1))),
                                z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < n.e), f(j) == f(0) + j))))
            p.prove("from_array refuses only short or non-consecutive lists",
                    lor(mkbool(n.e < 2), mkbool(z3.Exists([j], z3.And(j >= 0, j < n.e - 1, f(j) + 1 != f(j + 1))))))
            return
        p.prove("from_array refuses lists of less than two", mkbool(n.e >= 2))
        i = p.int("i", 0)
        p.assume(i.e < n.e - 1)
        p.prove("from_array accepts only consecutive usages", mkbool(f(i.e) + 1 == f(i.e + 1)))
        p.prove("from_array: bounds are the first and last entries", land(eqi(ints(it, it.getattr(x, "min")), SymInt(f(z3.IntVal(0)))),
                                                                       eqi(ints(it, it.getattr(x, "max")), mkint(f(n.e - 1)))))
    run_harness(report, "from_array", h)

    def lemma(p, it):
        """consecutive pairs => arr[k] = arr[0] + k (induction on k)"""
        f = z3.Function("arr", z3.IntSort(), z3.IntSort())
        k = p.int("k", 0)
        if p.choose(2):
            p.prove("induction base: the range holds the list's first entry", mkbool(f(0) == f(0) + 0))
        else:
            p.assume(f(k.e) == f(0) + k.e)
            p.assume(f(k.e) + 1 == f(k.e + 1))
            p.prove("induction step: the range holds the list's entries in order", mkbool(f(k.e + 1) == f(0) + (k.e + 1)))
    run_harness(report, "from_array induction", lemma)


UNITS = [("registry", registry_table), ("tables", unit_table), ("numbered", unit_numbered), ("lookup", unit_lookup), ("split", unit_split), ("page", unit_page),
         ("range", unit_range), ("from_array", unit_from_array)]


# ------------------------------------------------------------------ run-time contract
def check(inp):
    op = inp["op"]
    num = lambda v: int(v)
    if op == "const":
        x = attempt(lambda: find(inp["name"]))
        if x[0] != "ok" or int(x[1]) != inp["value"]:
            return "%s is %s, not %#x" % (inp["name"], hex(int(x[1])) if x[0] == "ok" else x, inp["value"])
        u = x[1]
        y = eval(str(u), dict(modules()))
        if int(y) != inp["value"]:
            return "%s prints as %s" % (inp["name"], u)
        l = UsageConst.lookup(inp["value"])
        if int(l) != inp["value"] or str(eval(str(l), dict(modules()))) != str(l):
            return "lookup of %#x gives %s" % (inp["value"], l)
        return None
    if op == "new":     # constants beyond the recorded table: only unique and evaluable
        seen = {}
        for k, v in published().items():
            u = find(k)
            if seen.setdefault(v, u) is not u:
                return "%s shares its value with %s" % (k, seen[v])
            if int(eval(str(u), dict(modules()))) != v:
                return "%s prints as %s" % (k, u)
        for k, u in list(UsageConst.reverse.items()):
            if int(u) != k or int(eval(str(u), dict(modules()))) != k:
                return "registered usage %s under %#x" % (u, k)
        return None
    if op == "num":
        u = find(inp["fn"])(inp["n"])
        want = {"button.Button": 0x90000, "ordinal.Ordinal": 0xa0000}[inp["fn"]] + inp["n"]
        if int(u) != want or int(eval(str(u), dict(modules()))) != want:
            return "%s(%d) is %s = %#x" % (inp["fn"], inp["n"], u, int(u))
        return None
    if op == "value":
        v = inp["v"]
        for x in (v, NamedConstant("some.Name", v), NamedConstant("plain", v), UsageConst("my.Name", v, register=False)):
            u = UsageConst.lookup(x)
            if not isinstance(u, UsageConst) or int(u) != v:
                return "lookup(%r) gives %#x" % (v, int(u))
            p, n = u.split()
            if (int(p), int(n)) != (v >> 16, v & 0xffff):
                return "split of %#x gives %#x, %#x" % (v, int(p), int(n))
            if not isinstance(x, int) and str(u) != str(x):
                return "lookup of the constant %s prints %s" % (x, u)
        u = UsageConst.lookup(v)
        y = attempt(eval, str(u), dict(modules()))
        if y[0] != "ok" or int(y[1]) != v:
            return "the printed form %s of usage %#x does not stand for it" % (u, v)
        if int(UsageConst.page(v >> 16)) != v >> 16:
            return "page of %#x" % v
        if int(UsageConst.inpage(v >> 16, v & 0xffff)) != v & 0xffff:
            return "inpage of %#x" % v
        if int(UsageConst.lookup((int(p) << 16) | int(n))) != v:
            return "page and number of %#x do not combine" % v
        return None
    if op == "range":
        a, b = inp["a"], inp["b"]
        for conv in (int, UsageConst.lookup):
            r = UsageRange(conv(a), conv(b))
            if len(r) != b - a + 1:
                return "length of range %#x..%#x is %d" % (a, b, len(r))
            if [int(u) for u in r] != list(range(a, b + 1)) or not all(isinstance(u, UsageConst) for u in r):
                return "iteration of range %#x..%#x" % (a, b)
            if [int(r[i]) for i in range(len(r))] != list(range(a, b + 1)):
                return "indexing of range %#x..%#x" % (a, b)
            x = eval(str(r), dict(modules(), UsageRange=UsageRange))
            if [int(u) for u in x] != list(range(a, b + 1)):
                return "printed form of range %#x..%#x" % (a, b)
        return None
    if op == "array":
        l = inp["l"]
        ok = len(l) >= 2 and all(y == x + 1 for x, y in zip(l, l[1:]))
        for conv in (int, UsageConst.lookup):
            r = attempt(lambda: UsageRange.from_array([conv(x) for x in l]))
            if ok != (r[0] == "ok"):
                return "from_array(%s): %s" % (l, r[0])
            if ok and [int(u) for u in r[1]] != l:
                return "from_array(%s) holds %s" % (l, [int(u) for u in r[1]])
        return None
    return "bad case"


def gen(rng, hints):
    hv = [v for n, v in hints if 0 <= v < 1 << 32] or [5]
    val = lambda: rng.choice([rng.randrange(1 << 32), rng.randrange(1 << 20), rng.randrange(1 << 16), rng.choice(list(UsageConst.reverse)) + rng.choice([0, 0, 1]),
                              rng.randrange(256) << 16, abs(rng.choice(conc.MINED)) % (1 << 32), rng.choice(hv), rng.choice(list(UsageConst.pageName)) << 16 | rng.randrange(0x300)])
    k = rng.random()
    if k < .5:
        return {"op": "value", "v": val()}
    if k < .6:
        return {"op": "num", "fn": rng.choice(["button.Button", "ordinal.Ordinal"]), "n": rng.choice([rng.randrange(300), rng.randrange(65536)])}
    if k < .8:
        a = val()
        return {"op": "range", "a": a, "b": a + rng.choice([0, 1, 2, 7, rng.randrange(70), rng.randrange(400)])}
    a = val()
    l = list(range(a, a + rng.randrange(0, 12)))
    for _ in range(rng.choice([0, 0, 1, 1, 2])):
        if l:
            i = rng.randrange(len(l))
            c = rng.randrange(5)
            if c == 0:
                l[i] += rng.choice([1, -1, 2]) if l[i] > 1 else 1
            elif c == 1:
                del l[i]
            elif c == 2:
                l.insert(i, l[i])
            elif c == 3:
                l = l[::-1]
            else:
                l[-1] = l[0]
    return {"op": "array", "l": l}


def fixed(hints):
    yield {"op": "new"}
    for k, v in golden()["constants"].items():
        yield {"op": "const", "name": k, "value": v}
    for n in list(range(300)) + [0xffff]:
        yield {"op": "num", "fn": "button.Button", "n": n}
        yield {"op": "num", "fn": "ordinal.Ordinal", "n": n}
    for v in list(range(0, 300)) + [0xffff, 0x10000, 0x10001, 0xfffffffe, 0xffffffff] + [p << 16 | n for p in range(256) for n in (0, 1, 0xff, 0x100, 0xffff)]:
        yield {"op": "value", "v": v}
    for a in (0, 1, 0xffff, 0x70004, 0x9ffff):
        for n in range(6):
            yield {"op": "range", "a": a, "b": a + n}
            yield {"op": "array", "l": list(range(a, a + n))}
            if n > 2:
                yield {"op": "array", "l": list(range(a, a + n - 1)) + [a + n]}
                yield {"op": "array", "l": [a + 1] + list(range(a + 1, a + n))}
