"""C15: comparison with expected bytes."""
import unittest
import warnings
import z3
from ..lib import *
from ..tape import mkitem
from .. import conc, hid, dec
from .c03 import lex_code, reading, bytes_of, BlobOf, lenient
from .c14 import Part, hooks, library, attempt_
from hrdc.stream import comparer as _comparer
from hrdc.descriptor import test as _test

E = _comparer.ExpectedStream
LEVEL = "proof"
TRUSTED = ["vf/interp.py (AST semantics of Python, cross-checked against CPython by selftest)", "vf/rx.py (regular expressions, as in C03)", "z3 / cvc5",
           "induction over the items: what is compared so far is the expected text up to here (unit append), and the end is the end of both (unit close)"]
ASSUMPTIONS = ["assertEqual passes exactly on equal values", "Item.bytes is 1 to 5 bytes (C01)", "expected code: hexadecimal literals of two digits, with or without 0x, commas, blanks and comments",
               "the parts by their contracts: optimizers (C04), compilation (C05)"]
RULE = "a case = one sequence of items or description compared with one expected text by the real helper; distinct by its JSON text"
QUICK_S, QUICK_N, THOROUGH_S = 8, 1500, 120


def replay(text):
    data = lex_code(text, True)
    ts = None if data is None or lenient(data) else conc.spec_parse(data)
    return None if ts is None or b"".join(conc.spec_bytes(*t) for t in ts) != data else check({"items": ts, "text": text})


def unit_text(report):
    def h(p, it):
        text, blob = reading(p, it, "code", replay, bare=True)
        o = it.call(E, (Case(), text))
        got = [v for v in o.__dict__.values() if isinstance(v, BlobOf)]
        if len(got) != 1:
            raise Unsupported("expected bytes kept another way")
        bytes_of(p, it, got[0], blob)
    run_harness(report, "text", h)


class Case:
    """A test case: assertEqual raises unless equal"""
    _vf_class = True

    @property
    def assertEqual(self):
        def f(it, a, b, msg=None):
            if not it.truth(it.eq(a, b)):
                raise AssertionError("not equal")
        f._vf_native = True
        return f

    def __getattr__(self, n):
        if n.startswith("assert") or n == "fail":
            raise Unsupported("compared by " + n)
        raise AttributeError(n)


class Expected(SymBytes):
    """The expected bytes: n of them, byte i being fn(i)"""
    __slots__ = ("fn", "n", "p", "at")
    raw_index = True

    def __init__(self, p, n=None, at=0):
        SymBytes.__init__(self, [], None)
        self.fn, self.p, self.at = z3.Function("expected", z3.IntSort(), z3.IntSort()), p, at
        self.n = p.int("n", 0, keep=True) if n is None else n

    def length(self):
        return self.n

    def no(self, *a):
        raise Unsupported("operation on the expected bytes")
    __len__ = __bool__ = __iter__ = __add__ = __radd__ = __eq__ = no

    def __getitem__(self, k):
        p = self.p
        if not isinstance(k, slice) or k.step not in (None, 1):
            raise Unsupported("expected bytes taken another way")
        lo = zi(0 if k.start is None else k.start)
        if k.stop is None:
            if not p.valid(lo >= 0):
                raise Unsupported("expected bytes from behind")
            return Expected(p, mkint(z3.If(lo > zi(self.n), z3.IntVal(0), zi(self.n) - lo)), mkint(zi(self.at) + lo))
        d = p.concretize(mkint(z3.simplify(zi(k.stop) - lo)), 16)
        if not p.valid(lo >= 0) or d < 0:
            raise Unsupported("expected bytes from behind")
        out = []
        for i in range(d):
            if p.fork(lo + i >= zi(self.n)):
                break
            e = self.fn(z3.simplify(zi(self.at) + lo + i))
            p.assume(z3.And(e >= 0, e <= 255))
            out.append(SymInt(e))
        return SymBytes(out)


def state(p, it):
    o = it.call(E, (Case(), "0x01,"))
    ex = [k for k, v in o.__dict__.items() if isinstance(v, (bytes, bytearray))]
    at = [k for k, v in o.__dict__.items() if type(v) is int]
    if len(ex) != 1 or len(at) != 1 or o.__dict__[at[0]] != 0 or len(o.__dict__) != 3:
        raise Unsupported("comparison of another shape")
    constant(o, *[k for k in o.__dict__ if k not in (ex[0], at[0])])
    x = Expected(p)
    point = p.int("point", 0, keep=True)
    p.assume(point.e <= x.n.e)
    o.__dict__[ex[0]], o.__dict__[at[0]] = x, point
    return o, x, point, at[0]


def unit_start(report):
    def h(p, it):
        o = it.call(E, (Case(), "0x01,0x02"))
        at = [v for v in o.__dict__.values() if type(v) is int]
        if len(at) != 1:
            raise Unsupported("comparison of another shape")
        p.prove("comparison starts with the first byte", at[0] == 0)
    run_harness(report, "start", h)


def unit_append(report):
    for n in (1, 2, 3, 5):
        def h(p, it):
            o, x, point, at = state(p, it)
            bs = [p.int("b%d" % i, 0, 255, keep=True) for i in range(n)]
            i = mkitem(it, (1, 7), 5)
            for k in type(i).__mro__:
                if "bytes" in k.__dict__:
                    it.hooks[k.__dict__["bytes"]] = lambda it, args, kwargs: SymBytes(bs)
            bad, _ = raises(it, lambda: it.call_method(o, "append", (i,)))
            fits = z3.And([point.e + n <= x.n.e] + [x.fn(point.e + k) == b.e for k, b in enumerate(bs)])
            if bad:
                p.prove("an item whose bytes are the expected ones passes", mkbool(z3.Not(fits)))
                return
            p.prove("an item passes only if its bytes are the expected ones", mkbool(fits))
            p.prove("an item that passes is behind", eqi(o.__dict__[at], mkint(point.e + n)))
            p.prove("what is expected stays", any(v is x for v in o.__dict__.values()))
        run_harness(report, "append", h, items=True)


def unit_close(report):
    def h(p, it):
        o, x, point, at = state(p, it)
        bad, _ = raises(it, lambda: it.call_method(o, "close"))
        p.prove("the end passes exactly when nothing more is expected", mkbool(point.e != x.n.e) if bad else mkbool(point.e == x.n.e))
    run_harness(report, "close", h, items=True)


def unit_helper(report):
    def h(p, it):
        log = []
        hooks(it, log)

        def expected(it, c, args, kwargs):
            if kwargs:
                raise Unsupported("comparison made another way")
            return Part(log, "writer", c, *args)
        it.class_hooks.append((E, expected))
        desc, case = Part(log, "description", None), Case()
        it.call(_test.descriptor_expected, (case, desc, "0x01,"))
        p.prove("the description is compiled, once", len(log) >= 1 and log[0][0] == "accept" and log[0][1] is desc and len(log[0]) == 3 and [e[0] for e in log].count("accept") == 1)
        v = log[0][2]
        p.prove("by the streamer", isinstance(v, Part) and v.what == "streamer" and v.cls is _streamer.Streamer)
        w = v.args[0]
        p.prove("the end is compared too", [e[0] for e in log].count("close") == 1 and log[-1][0] == "close" and log[-1][1] is w and len(log) == 2)
        p.prove("it is optimized", isinstance(w, Part) and w.what == "optimizer")
        w = w.args[0] if w.what == "optimizer" else w
        p.prove("what is compiled is compared with the expected code", isinstance(w, Part) and w.cls is E and len(w.args) == 2 and w.args[0] is case and w.args[1] == "0x01,")
    run_harness(report, "helper", h)


UNITS = [("text", unit_text), ("start", unit_start), ("append", unit_append), ("close", unit_close), ("helper", unit_helper)]


# --------------------------------------------------------------- run time
class Tc(unittest.TestCase):
    def runTest(self):
        pass


def check(inp):
    ts = [tuple(t) for t in inp["items"]]
    want = lex_code(inp["text"], True)
    if want is None:
        return "skip"
    tc = Tc()
    if inp.get("root"):
        root = attempt_(lambda: dec.decompile(ts))
        if root is None:
            return "skip"
        data = attempt_(lambda: library(None, root, True))
        f = lambda: _test.descriptor_expected(tc, root, inp["text"])        # noqa: E731
    else:
        items = [conc.mk(t) for t in ts]
        data = b"".join(conc.spec_bytes(*t) for t in ts)

        def f():
            s = E(tc, inp["text"])
            for i in items:
                s.append(i)
            s.close()
    if data is None:
        return "skip"
    try:
        f()
        ok = True
    except AssertionError:
        ok = False
    except Exception as e:      # noqa: BLE001
        return "%s: %s" % (type(e).__name__, e)
    if ok != (data == want):
        return "%s %s for %s" % ("passes" if ok else "does not pass", want.hex(), data.hex())
    return None


SEPS = [",", ", ", ",\n", " , // a, 0x01\n", ", /* 0x02, */ ", ", /* a // b */", " /* x\n y */,", ", // c /* d\n", ",,", ",\t/**/"]


def text_of(r, data):
    style = r.choice([["0x%02x"], ["0x%02X"], ["%02x"], ["%02X"], ["0x%02x", "%02X"]])
    return r.choice(["", "\n", "// head\n", "/* head */"]) + "".join(r.choice(style) % b + r.choice(SEPS) for b in data)


def gen(r, hints):
    items = dec.gen(r, hints)["items"]
    root = r.random() < .3
    if root:
        d = attempt_(lambda: library(None, dec.decompile([tuple(t) for t in items]), True)) or b""
    else:
        d = b"".join(conc.spec_bytes(*t) for t in items)
    k = r.random()
    if items and not root and k > .8:
        # whole items missing from, or too many at, either end
        one = [conc.spec_bytes(*t) for t in items]
        n = r.randrange(1, 3)
        d = r.choice([b"".join(one[:-n]), b"".join(one[n:]), d + b"".join(one[-n:]), d + conc.spec_bytes(0, 12, 0), d + bytes(n), conc.spec_bytes(0, 12, 0) + d,
                      d + r.choice([b"\xc0", b"\x00", b"\xff"]) * n])
    elif d and k < .5:
        i = r.randrange(len(d))
        d = r.choice([d[:i], d + bytes([r.randrange(256)]), d[:-1], d[:i] + bytes([d[i] ^ 1 << r.randrange(8)]) + d[i + 1:], d[1:], d[:i] + d[i + 1:], d + d])
    return {"items": items, "text": text_of(r, d), "root": root}


def fixed(hints):
    import random
    r = random.Random(1)
    for l in dec.fixed_streams():
        d = b"".join(conc.spec_bytes(*t) for t in l)
        yield {"items": l, "text": text_of(r, d)}
        yield {"items": l, "text": text_of(r, d[:-1])}
        yield {"items": l, "text": text_of(r, d + b"\xc0")}
        for t in ([0, 12, 0], [0, 10, 0]):
            yield {"items": list(l) + [t], "text": text_of(r, d)}
            yield {"items": l, "text": text_of(r, d + conc.spec_bytes(*t))}
        yield {"items": l[:-1], "text": text_of(r, d)}
        o = attempt_(lambda: library(None, dec.decompile([tuple(t) for t in l]), True))
        if o:
            yield {"items": l, "text": text_of(r, o), "root": True}
            yield {"items": l, "text": text_of(r, o[:-1]), "root": True}
            yield {"items": l, "text": text_of(r, o + b"\xc0"), "root": True}


def smaller(inp):
    for c in dec.smaller({"items": inp["items"]}):
        yield dict(inp, items=c["items"])
    t = inp["text"].split("\n")
    for i in range(len(t)):
        yield dict(inp, text="\n".join(t[:i] + t[i + 1:]))
