"""Cross-check of the engine: the interpreter against CPython on the same concrete inputs, and
the proof rules against deliberately wrong claims."""
import io
import random
import sys
import types
import z3
from .lib import *
from .sym import *
from .sym import issym, SymBytes, SymStr, SymBool
from . import conc, desc, hid
from .conc import Sink, mk


class Skip(Exception):
    pass


def both(name, native, interp):
    def run(f):
        try:
            return ("ok", f())
        except Unsupported:
            raise
        except Exception as e:      # noqa: BLE001
            return ("raise", type(e).__name__)
    return run(native), run(interp)


def cases(rng):
    def item(it):
        kt = rng.choice(sorted(conc.ITEMS))
        v = rng.choice([0, 1, -1, 127, 128, 255, 256, 65535, 65536, rng.randrange(-2**31, 2**32)])
        c = _item.Item.registry[kt]
        return (lambda: (lambda i: (i.bytes(), str(i)))(c(v))), (lambda: (lambda i: (it.call_method(i, "bytes"), it.to_str(i)))(it.call(c, (v,))))

    def stream():
        out = []
        for _ in range(rng.randrange(1, 25)):
            kt = rng.choice(sorted(conc.ITEMS))
            v = 0 if kt in conc.NOVALUE else rng.choice([0, 1, 2, 3, 5, 0x10002, 0x90001, 0x90002, 8])
            out.append(kt + (v,))
        return out

    def optimizer(it):
        ts = stream()

        def nat():
            s = Sink()
            o = _opt.Optimizer.new(s)
            for t in ts:
                o.append(mk(t))
            o.close()
            return s.triples(), s.closed

        def sym_():
            s = Sink()
            rec = SinkProxy(s)
            o = it.call(_opt.Optimizer.new, (rec,))
            for t in ts:
                it.call_method(o, "append", (it.call(_item.Item.registry[t[:2]], (t[2],)),))
            it.call_method(o, "close")
            return s.triples(), s.closed
        return nat, sym_

    def compiler(it):
        t = desc.gen_tree(rng)
        return (lambda: [hid.triple(i) for i in desc.compile_(desc.build(t))]), (lambda: interp_compile(it, desc.build(t)))

    def decompiler(it):
        t = desc.gen_tree(rng)
        try:
            ts = [hid.triple(i) for i in desc.compile_(desc.build(["top", ["coll", 1, 5, t]]))]
        except Exception:      # noqa: BLE001
            ts = []

        def nat():
            e = _extractor.Extractor()
            for x in ts:
                e.append(mk(x))
            e.close()
            o = io.StringIO()
            e.root.accept(_dumper.Dumper(o))
            return o.getvalue()

        def sym_():
            e = it.call(_extractor.Extractor, ())
            for x in ts:
                it.call_method(e, "append", (it.call(_item.Item.registry[x[:2]], (x[2],)),))
            it.call_method(e, "close")
            o = io.StringIO()
            it.call_method(it.getattr(e, "root"), "accept", (it.call(_dumper.Dumper, (o,)),))
            return o.getvalue()
        return nat, sym_

    def constants(it):
        import ast
        a, b = NamedConstant("a", rng.randrange(-50, 600)), rng.choice([NamedConstant("b", rng.randrange(0, 9)), rng.randrange(0, 9)])
        op = rng.choice([ast.Add, ast.Mult, ast.BitOr, ast.BitAnd, ast.LShift, ast.RShift, ast.BitXor, ast.Sub])()
        import operator
        fn = {"Add": operator.add, "Mult": operator.mul, "BitOr": operator.or_, "BitAnd": operator.and_, "LShift": operator.lshift,
              "RShift": operator.rshift, "BitXor": operator.xor, "Sub": operator.sub}[type(op).__name__]
        key = lambda v: (type(v).__name__, int(v), str(v))
        return (lambda: key(fn(a, b))), (lambda: key(it.binop(op, a, b)))
    return [item, optimizer, compiler, decompiler, constants]


class SinkProxy:
    def __init__(self, s):
        self.s = s

    def append(self, i):
        self.s.append(i)

    def close(self):
        self.s.close()


def interp_compile(it, obj):
    s = SinkList()
    it.call_method(obj, "accept", (it.call(_streamer.Streamer, (s,)),))
    return [hid.triple(i) for i in s]


def wrong_claims():
    """The engine must refuse these."""
    rep = Report()
    bad = []

    def h1(p, it):
        v = p.int("v", 0, 70000)
        x = it.call(_item.LogicalMaximum, (v,))
        b = it.call_method(x, "bytes")
        p.prove("W1 every small value takes one byte", eqi(it.length(b), 2))
        p.prove("R1 every small value takes at most four bytes", mkbool(z3.And(zi(it.length(b)) >= 2, zi(it.length(b)) <= 5)))
    run_harness(rep, "w1", h1)

    def h2(p, it):
        sink = SinkList()
        s = it.call(_streamer.Streamer, (sink,))
        n = p.int("n", 0, 100)
        it.call_method(it.call(_d.Padding, (8, n)), "accept", (s,))
        p.prove("W2 padding is always emitted", len(sink) > 0)
    run_harness(rep, "w2", h2)

    def h3(p, it):
        f = z3.Function("f", z3.IntSort(), z3.IntSort())
        n = p.int("n", 0)
        arr = [Block(n, None, lambda it, i: SymInt(f(zi(i))), "arr")]
        r, x = raises(it, lambda: it.call(UsageRange.from_array, (arr,)))
        if not r:
            p.prove("W3 any list is a range of three", eqi(it.length(x), 3))
            p.prove("W3b false", False)
    run_harness(rep, "w3", h3)
    for n, o in rep.ob.items():
        if n.startswith("W") and o["status"] == "proved":
            bad.append("wrong claim accepted: " + n)
        if n.startswith("R") and o["status"] != "proved":
            bad.append("right claim not discharged: " + n)
    return bad


# ------------------------------------------------------------- the language
def corpus():
    """vf/corpus.py as if it were code of /repo."""
    import importlib.util
    import os
    from . import interp
    fn = os.path.realpath(os.path.join(os.path.dirname(__file__), "corpus.py"))
    spec = importlib.util.spec_from_file_location("hrdc._corpus", fn)
    m = importlib.util.module_from_spec(spec)
    sys.modules["hrdc._corpus"] = m
    spec.loader.exec_module(m)
    was = interp._is_repo_file
    interp._is_repo_file = lambda f: os.path.realpath(f) == fn or was(f)
    return m, [f for n, f in vars(m).items() if isinstance(f, types.FunctionType) and f.__module__ == "hrdc._corpus"]


def alike(p, it, got, want):
    """The engine's value is the native one."""
    if isinstance(want, (tuple, list)):
        if isinstance(got, (tuple, list)) and type(got) is type(want) and len(got) == len(want) and not any(isinstance(x, (Block, Maybe)) for x in got):
            return all(alike(p, it, a, b) for a, b in zip(got, want))
        return p.valid(it.truth(it.eq(got, want))) if issym(got) else False
    if isinstance(want, dict):
        if type(got) is dict:
            n = list(got.items())
            return len(n) == len(want) and all(alike(p, it, a, b) for a, b in zip(n, want.items()))
        return alike(p, it, list(it.iterate(it.call_method(got, "items"))), list(want.items()))
    if isinstance(got, (SymInt, SymBool)):
        if not isinstance(want, int):
            return False
        if isinstance(got, SymBool) != isinstance(want, bool):
            return False
        return p.valid(eqi(toint(got), int(want)))
    if issym(got) or isinstance(got, (SymBytes, SymStr)):
        r = it.eq(got, want)
        return r if isinstance(r, bool) else p.valid(r)
    return type(got) is type(want) and got == want


def unbounded(f, kinds, bad, out):
    """f on lists of unknown length: every path, narrowed to lists of 0..3 elements, against CPython."""
    import random
    rng = random.Random(f.__name__)
    n = 0
    for size in (0, 1, 2, 3):
        for run in range(3):
            seen = []

            def h(p):
                nonlocal n
                it = new(p)
                args, lists = [], []
                for k in kinds:
                    if k is list:
                        g = z3.Function("f%d" % len(lists), z3.IntSort(), z3.IntSort())
                        m = p.int("n", 0)
                        lists.append((m, g))
                        args.append([Block(m, None, lambda it, i, g=g: SymInt(g(zi(i))), "list")])
                    else:
                        args.append(p.int("x", -1, 4))
                given = list(args)
                try:
                    try:
                        got = ("ok", it.call(f, tuple(args)))
                    except Unsupported:
                        raise
                    except PathEnd:
                        raise
                    except Exception as e:      # noqa: BLE001
                        got = ("raise", type(e).__name__)
                    native = []
                    for m, g in lists:
                        p.assume(m.e == size)
                        for j in range(size):
                            p.assume(z3.And(g(j) >= -1, g(j) <= 4))
                    for a, k in zip(given, kinds):
                        if k is list:
                            g = lists[len([x for x in native if isinstance(x, list)])][1]
                            for j in range(size):
                                want = g(j) == rng.randrange(-1, 5)
                                if p.check(want) == z3.sat:
                                    p.assume(want)
                            native.append([])
                        else:
                            native.append(None)
                    if p.check() != z3.sat:
                        return
                    mod = p.solver.model()
                    ls = iter(lists)
                    for x, (a, k) in enumerate(zip(given, kinds)):
                        if k is list:
                            g = next(ls)[1]
                            native[x] = [mod.eval(g(j), model_completion=True).as_long() for j in range(size)]
                            for j in range(size):
                                p.assume(g(j) == native[x][j])
                        else:
                            native[x] = mod.eval(zi(a), model_completion=True).as_long()
                            p.assume(zi(a) == native[x])
                    if got[0] == "ok":
                        got = ("ok", expand(p, it, got[1]))
                    c = [list(x) if isinstance(x, list) else x for x in native]
                    try:
                        want = ("ok", f(*native))
                    except Exception as e:      # noqa: BLE001
                        want = ("raise", type(e).__name__)
                    n += 1
                    seen.append(str(c))
                    if got[0] != want[0] or not alike(p, it, got[1], want[1]):
                        bad.append((f.__name__, c, str(got)[:400], str(want)[:400]))
                except Unsupported as e:
                    out.setdefault(f.__name__, str(e))
            explore(h, Report())
            if not seen and f.__name__ not in out:
                bad.append((f.__name__, "no path for lists of %d" % size))
    return n


def expand(p, it, v):
    """lists of unknown length, now that the length is known"""
    if isinstance(v, (list, tuple)):
        r = []
        for x in v:
            if isinstance(x, Block):
                if x.n is None:
                    raise Unsupported("filtered")
                k = next(j for j in range(0, 30) if p.valid(zi(x.n) == j))
                r += [expand(p, it, x.get(it, j)) for j in range(k)]
            elif type(x).__name__ == "Maybe":
                raise Unsupported("filtered")
            else:
                r.append(expand(p, it, x))
        return r if isinstance(v, list) else tuple(r)
    return v


def language():
    import copy
    import itertools as I
    m, fs = corpus()
    bad, n, out = [], 0, {}
    for f in fs:
        ann = f.__annotations__
        names = f.__code__.co_varnames[:f.__code__.co_argcount]
        if list in ann.values() or f.__name__.startswith("list_"):
            n += unbounded(f, [ann[a] for a in names], bad, out)
            continue
        for vals in I.product(*[[int] if ann[a] is int else ann[a] for a in names]):
            # concretely, then with unknown integers
            runs = [vals] if int not in vals else [tuple(x if v is int else v for v in vals) for x in (-2, 0, 1, 5, 300)] + [vals]
            for args in runs:
                def h(p):
                    nonlocal n
                    it = new(p)
                    a = copy.deepcopy(list(args))
                    syms = []
                    for k, v in enumerate(a):
                        if v is int:
                            a[k] = p.int("x", -300 if len(names) == 1 else -4, 300 if len(names) == 1 else 6)
                            syms.append(k)
                    try:
                        try:
                            got = ("ok", it.call(f, tuple(a)))
                        except Unsupported:
                            raise
                        except Exception as e:      # noqa: BLE001
                            got = ("raise", type(e).__name__)
                        b = copy.deepcopy(list(args))
                        if p.check() != z3.sat:
                            return
                        mod = p.solver.model()
                        for k in syms:
                            b[k] = mod.eval(zi(a[k]), model_completion=True).as_long()
                            p.assume(mkbool(zi(a[k]) == b[k]))
                        c = copy.deepcopy(b)
                        try:
                            want = ("ok", f(*b))
                        except Exception as e:      # noqa: BLE001
                            want = ("raise", type(e).__name__)
                        n += 1
                        if got[0] != want[0] or not alike(p, it, got[1], want[1]):
                            bad.append((f.__name__, c, str(got)[:400], str(want)[:400]))
                    except Unsupported as e:
                        out.setdefault(f.__name__, str(e))
                r = Report()
                explore(h, r)
    return n, out, bad


# ------------------------------------------------------- regular expressions
def expressions(rng):
    """rx.Program against Python's re."""
    import re
    from . import rx
    atoms = ["a", "b", "0", "x", "[ab]", "[^a]", "\\d", "\\w", "\\s", ".", "0x", "[0-9a-fA-F]", "(?:ab|a)", "(?:a|b|0x)", "/", "\\*", "\\n", "\\b", "^", "$"]
    bad, n, skipped = [], 0, 0
    for _ in range(400):
        def piece(d):
            x = rng.choice(atoms)
            if d and rng.random() < .3:
                x = "(?:%s)" % "|".join("".join(piece(d - 1) for _ in range(rng.randrange(1, 3))) for _ in range(rng.randrange(1, 3)))
            if x not in ("\\b", "^", "$") and rng.random() < .45:
                x = (x if len(x) == 1 or x[0] in "[(" or x[0] == "\\" else "(?:%s)" % x) + rng.choice(["*", "+", "?", "*?", "+?", "??", "{2}", "{1,2}"])
            return x
        src = "".join(piece(2) for _ in range(rng.randrange(1, 5)))
        flags = rng.choice([0, 0, re.DOTALL, re.MULTILINE])
        try:
            pat = re.compile(src, flags)
            prog = rx.Program(src, flags)
        except (re.error, rx.NotCovered):
            skipped += 1
            continue
        for _ in range(12):
            text = "".join(rng.choice("ab0x/* \\n9f") for _ in range(rng.randrange(0, 12)))
            want = [m.span() for m in pat.finditer(text) if m.start() != m.end()]
            if any(m.start() == m.end() for m in pat.finditer(text)):
                continue            # decide() refuses these as well
            got = prog.scan(text)
            n += 1
            if got != want:
                bad.append(("pattern", src, flags, text, got, want))
    return n, skipped, bad


# ------------------------------------------------------------ lemmas on items
def lemmas(rng):
    """What tape.py takes as the same means the same to hid.py."""
    from . import tape
    bad, n = [], 0

    def value(kt):
        return 0 if kt in conc.NOVALUE else rng.choice([0, 1, 2, 3, 4, 65537, 65538])

    def seg():
        return [kt + (value(kt),) for kt in (rng.choice(tape.NONMAIN) for _ in range(rng.randrange(0, 8)))]

    def shuffled(l):
        # any interleaving that keeps the order within each component
        q = {c: [x for x in l if tape.COMP[x[:2]] == c] for c in "guds"}
        out = []
        while any(q.values()):
            c = rng.choice([c for c in q if q[c]])
            out.append(q[c].pop(0))
        return out

    def runs(l):
        # numbers one by one or as ranges
        out, i = [], 0
        while i < len(l):
            k, t, v = l[i]
            j = i
            if k == 2 and t in (0, 3, 7):
                while j + 1 < len(l) and l[j + 1][:2] == (k, t) and l[j + 1][2] == l[j][2] + 1 and l[j + 1][2] >> 16 == v >> 16 and rng.random() < .8:
                    j += 1
                if j > i or rng.random() < .3:
                    out += [(2, t + 1, v), (2, t + 2, l[j][2])]
                    i = j + 1
                    continue
            out.append(l[i])
            i += 1
        return out
    for _ in range(3000):
        a, b = [], []
        how = rng.choice(["commute", "runs", "zero"])
        for _ in range(rng.randrange(1, 4)):
            main = rng.choice(tape.MAINS)
            main = main + (rng.choice([0, 2, 3]) if main not in conc.NOVALUE else 0,)
            if how == "commute":
                s = seg()
                t = shuffled(s)
            elif how == "runs":
                g = [(1, 9, rng.randrange(0, 5)), (1, 0, rng.randrange(1, 3))]
                s, t = list(g), list(g)
                for fam in (0, 3, 7):
                    v, l = rng.choice([0, 1, 5, 65535, 65536, 65540]), []
                    for _ in range(rng.randrange(0, 5)):
                        l.append((2, fam, v))
                        v += rng.choice([1, 1, 1, 2])
                    s += l
                    t += runs(l)
            else:
                g = [(1, 9, rng.randrange(0, 5)), (2, 0, 65537)]
                s = g + [(2, rng.choice([3, 7]), 0)]
                t = g
            a += s + [main]
            b += t + [main]
        try:
            x, y = hid.events(a), hid.events(b)
        except hid.TooBig:
            continue
        n += 1
        if x != y:
            bad.append(("lemma", how, a, b))
    return n, bad



def main():
    rng = random.Random(7)
    bad, n, skipped = [], 0, 0
    for k in range(150):
        for c in cases(rng):
            def h(p):
                nonlocal n, skipped
                it = new(p)
                nat, sy = c(it)
                try:
                    a, b = both(c.__name__, nat, sy)
                except Unsupported as e:
                    skipped += 1
                    return
                n += 1
                if a != b:
                    bad.append((c.__name__, str(a)[:300], str(b)[:300]))
            explore(h, Report())
    try:
        bad += wrong_claims()
    except Unsupported as e:
        print("selftest: proof rules not exercised:", e)
    print("selftest: %d concrete executions agree with CPython, %d outside the engine's subset, %d disagreements" % (n - len(bad), skipped, len(bad)))
    k, out, b = language()
    bad += b
    print("selftest: language: %d executions agree with CPython, %d functions outside the engine's subset in part%s" % (k - len(b), len(out), "".join("\n  %s: %s" % x for x in out.items())))
    k, skipped, b = expressions(rng)
    bad += b
    print("selftest: regular expressions: %d scans agree with re, %d patterns refused" % (k - len(b), skipped))
    k, b = lemmas(rng)
    bad += b
    print("selftest: items: %d pairs of streams taken as the same mean the same" % (k - len(b)))
    for b in bad[:12]:
        print("  DISAGREEMENT", b)
    return 1 if bad else 0
