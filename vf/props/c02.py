"""C02: reading binary descriptors."""
import ast
import io
import warnings
import z3
from ..lib import *
from ..tape import Down, CLOSE
from ..sym import Rest
from .. import conc, hid
from ..conc import ITEMS, NOVALUE, attempt

LEVEL = "proof"
TRUSTED = ["vf/interp.py (AST semantics of Python, cross-checked against CPython by selftest)", "models of struct.unpack and of bytes, cross-checked by C01 and selftest", "z3 / cvc5"]
ASSUMPTIONS = ["item constructors by their contract (C01), usage lookup and split by theirs (C10)",
               "the input's read() returns the whole descriptor as bytes",
               "whether an item without a value (end of collection, push, pop) that carries a non-zero payload is read or refused is left open",
               "termination: every iteration consumes at least one byte of a finite input (obligation `the item is consumed, no more, no less`)"]
RULE = "a case = one byte string read through the real reader and the real converter chain, compared with HID's item structure; distinct by its JSON text"
QUICK_S, QUICK_N, THOROUGH_S = 10, 5000, 180
P = _parser.Parser


class Source:
    """An open file: read() gives the contents."""
    _vf_class = True

    def __init__(self, contents, buffer=None):
        self.contents = contents
        if buffer is not None:
            self.buffer = buffer

    @property
    def read(self):
        def f(it, *args):
            if args and not (len(args) == 1 and (args[0] is None or type(args[0]) is int and args[0] < 0)):
                raise Unsupported("the input read piece by piece")
            return self.contents
        f._vf_native = True
        return f


class BytesAt(SymBytes):
    """bytes of which only what follows position `pos` matters"""
    __slots__ = ("pos", "rem")
    raw_index = True

    def __init__(self, pos, rem):
        SymBytes.__init__(self, [], None)
        self.pos, self.rem = pos, rem

    def off(self, k):
        d = z3.simplify(zi(k) - zi(self.pos))
        if not z3.is_int_value(d) or d.as_long() < 0:
            raise Unsupported("bytes before the current position")
        return d.as_long()

    def length(self):
        return mkint(zi(self.pos) + zi(self.rem.length()))

    def __len__(self):
        raise Unsupported("native len of symbolic bytes")

    def __bool__(self):
        raise Unsupported("truth of partly read bytes")

    def __getitem__(self, k):
        if isinstance(k, slice):
            if k.step not in (None, 1) or k.start is None:
                raise Unsupported("slice from the start of partly read bytes")
            return self.rem[self.off(k.start):None if k.stop is None else self.off(k.stop)]
        return self.rem[self.off(k)]

    def __iter__(self):
        raise Unsupported("iteration over partly read bytes")
    __add__ = __radd__ = __eq__ = lambda self, o: (_ for _ in ()).throw(Unsupported("operation on partly read bytes"))
    __hash__ = None


class Loop(dict):
    """Contract of the splitting loop: from any remaining input, one turn hands over exactly the
    item it starts with and goes on with what follows it."""

    def __init__(self, p, blob, header, obj, sink):
        self.p, self.blob, self.header, self.obj, self.sink = p, blob, header, obj, sink
        self.entered, self.rem = False, None

    def get(self, name, default=None):
        return self

    def for_block(self, it, fr, s, x):
        return it.for_block(s, fr, x)

    def head(self, it, fr, s, n):
        p = self.p
        if n == 0:
            mod = {x.id for st in [s] for x in ast.walk(st) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
            live = {k: v for k, v in fr.vars.items() if k in mod}
            if not any(v is self.blob for v in fr.vars.values()):
                return None
            self.entered = True
            if isinstance(fr.yields, list):
                raise Unsupported("items collected before they are handed over")
            p.prove("nothing is handed over before reading", self.sink.l == [])
            if self.header is None:
                rem = SymBytes([])
            else:
                rem = SymBytes([self.header], Rest("rest", p.int("more", 0).e))
            self.rem = rem
            self.was = None
            if len(live) == 1 and next(iter(live.values())) is self.blob:
                self.var, self.pos = next(iter(live)), None
                fr.vars[self.var] = rem
            elif len(live) == 1 and type(next(iter(live.values()))) is int:
                self.var = next(iter(live))
                p.prove("reading starts at the first byte", live[self.var] == 0)
                self.pos = p.int("position", 0)
                fr.vars[self.var] = self.pos
                for k, v in list(fr.vars.items()):
                    if v is self.blob:
                        fr.vars[k] = BytesAt(self.pos, rem)
            else:
                raise Unsupported("loop state of another shape: %s" % ", ".join(sorted(live)))
            for k, v in list(self.obj.__dict__.items()):
                if type(v) is int:
                    self.obj.__dict__[k] = p.int(k, 0)
            self.nums = [k for k, v in self.obj.__dict__.items() if isinstance(v, SymInt)]
            constant(self.obj, *[k for k in self.obj.__dict__ if k not in self.nums])
            self.watch = Watch(list(fr.vars.values()), [self.obj, self.sink, self.sink.l])
            return None
        if self.rem is None:
            return None
        # the end of one turn
        self.watch.check()
        check_fixed(p)
        for k in self.nums:
            w = self.obj.__dict__.get(k)
            if not isinstance(w, (int, SymInt)) or not p.valid(mkbool(zi(w) >= 0).e if isinstance(w, SymInt) else z3.BoolVal(w >= 0)):
                raise Unsupported("%s is not a number from 0" % k)
        v = fr.vars.get(self.var)
        h = self.header
        d = (1, 2, 3, 5)[h & 3] if h is not None else 0
        p.prove("reading stops at the end of the input", h is not None)
        short = self.truncated(p)
        kt = (h >> 2 & 3, h >> 4)
        p.prove("an unknown item is refused", kt in ITEMS)
        p.prove("an item cut short is refused", not short)
        if kt not in ITEMS or short:
            raise PathEnd
        l = self.sink.l
        p.prove("one turn hands over one item", len(l) == 1 and not isinstance(l[0], (Block, Maybe)) and l[0] is not CLOSE)
        if len(l) == 1 and isinstance(l[0], _item.Item):
            x = l[0]
            bs = [zi(b) for b in self.rem.b[1:d]]
            raw = sum([b * (1 << 8 * k) for k, b in enumerate(bs)], z3.IntVal(0))
            n8 = 8 * len(bs)
            want = mkint(z3.If(raw >= (1 << n8 - 1), raw - (1 << n8), raw)) if ITEMS[kt][1] and bs else mkint(raw)
            p.prove("the item handed over is the one read", land(eqi(it.to_int(it.getattr(x, "kind")), kt[0]), eqi(it.to_int(it.getattr(x, "tag")), kt[1])))
            p.prove("the item is an object of its class", type(x) is _item.Item.registry[kt])
            if kt not in NOVALUE:
                p.prove("the item handed over has the value read", eqi(it.to_int(it.getattr(x, "value")), want))
        left = self.rem.b[d:]
        n0 = self.rem.rest.n if self.rem.rest is not None else z3.IntVal(0)
        if self.pos is not None:
            p.prove("the item is consumed, no more, no less", eqi(it.to_int(v), mkint(zi(self.pos) + d)))
        else:
            if isinstance(v, bytes):
                v = SymBytes(v)
            if not isinstance(v, SymBytes):
                raise Unsupported("remaining input of another kind")
            n1 = v.rest.n if v.rest is not None else z3.IntVal(0)
            p.prove("the item is consumed, no more, no less", land(len(v.b) == len(left) and all(a is b for a, b in zip(v.b, left)), mkbool(n0 == n1)))
        raise PathEnd

    def truncated(self, p):
        h = self.header
        d = (1, 2, 3, 5)[h & 3]
        self.rem._need(d)
        return len(self.rem.b) < d


def bad_payload(lp):
    """a no-value item with a payload that is not 0: left open"""
    h = lp.header
    return (h >> 2 & 3, h >> 4) in NOVALUE and h & 3


def unit_read(lo, hi):
    def unit(report):
        for header in ([None] if lo == 0 else []) + list(range(lo, hi)):
            def h(p, it):
                blob = SymBytes([], Rest("input", p.int("length", 0).e))
                d = Down()
                src = Source(blob) if p.choose(2) else Source("text", Source(blob))
                o = it.call(_parser.Binary, (src, d))
                lp = Loop(p, blob, header, o, d)
                it.loop_contracts = lp
                r, e = raises(it, lambda: it.call_method(o, "read"))
                if not lp.entered:
                    raise Unsupported("the input is not read by a loop over its items")
                if r:
                    p.prove("an error closes nothing", CLOSE not in d.l)
                    known = header is not None and (header >> 2 & 3, header >> 4) in ITEMS
                    p.prove("a known, complete item is not refused", header is not None and (not known or lp.truncated(p) or bool(bad_payload(lp))))
                else:
                    p.prove("reading ends only at the end of the input", header is None)
                    p.prove("the end of the input closes the consumer once, and hands over nothing", d.l == [CLOSE])
            run_harness(report, "read", h, items=True)
    return unit


def unit_format(report):
    """the binary writer writes the bytes of every item, once, in order"""
    def h(p, it):
        log = []

        class Out:
            _vf_class = True

            @property
            def write(self):
                def f(it, b):
                    it.touch(log)
                    log.append(b)
                    return it.length(b)
                f._vf_native = True
                return f
        out = Out()
        if p.choose(2):
            t = Source("text", out)
            out = t
        o = it.call(_formatter.Binary, (out,))
        constant(o, *o.__dict__)
        token = SymBytes([p.int("b%d" % i, 0, 255) for i in range(1 + p.choose(3))])

        class Some:
            _vf_class = True

            @property
            def bytes(self):
                def f(it):
                    return token
                f._vf_native = True
                return f
        it.call_method(o, "append", (Some(),))
        flat = [x for b in log for x in b.b] if all(isinstance(b, SymBytes) and b.rest is None for b in log) else None
        p.prove("an item is written as its bytes, once", flat is not None and len(flat) == len(token.b) and all(a is b for a, b in zip(flat, token.b)))
        n = len(log)
        it.call_method(o, "close")
        p.prove("closing writes nothing", len(log) == n)
    run_harness(report, "write", h)
    report.add("the binary reader and writer are found under their name", "proved" if _parser.Parser.get("binary") is _parser.Binary
               and _formatter.Formatter.get("binary") is _formatter.Binary else "failed", "evaluation", 0.0)


UNITS = [("write", unit_format)] + [("read %02x.." % b, unit_read(b, b + 16)) for b in range(0, 256, 16)]


# ---------------------------------------------------------------- run time
class Text:
    """a text file over binary contents, as the command line opens it"""

    def __init__(self, data):
        self.buffer = io.BytesIO(data)

    def read(self, *a):
        return self.buffer.read(*a).decode("utf-8")


def check(inp):
    data = bytes.fromhex(inp["hex"])
    want = conc.spec_parse(data)
    lenient = False
    i = 0
    while i < len(data):
        h = data[i]
        n = (0, 1, 2, 4)[h & 3]
        if (h >> 2 & 3, h >> 4) in NOVALUE and any(data[i + 1:i + 1 + n]):
            lenient = True
        i += 1 + n
    if lenient:
        return "skip"
    for f in (io.BytesIO, Text):
        s = conc.Sink()
        r = attempt(lambda: _parser.Parser.get("binary")(f(data), s).read())
        if want is None:
            if r[0] == "ok":
                return "malformed descriptor read as %s" % (s.triples(),)
            if s.closed:
                return "malformed descriptor closes the consumer"
            continue
        if r[0] != "ok":
            return "well-formed descriptor refused: %s" % (r,)
        if s.triples() != want:
            return "read as %s, not %s" % (s.triples(), want)
        if any(type(x) is not _item.Item.registry[t[:2]] for x, t in zip(s.l, want)):
            return "item of the wrong class"
        if not s.ok():
            return "consumer closed %d times%s" % (s.closed, " too early" if s.late else "")
    if want is not None:
        out = io.BytesIO()
        w = _formatter.Formatter.get("binary")(out)
        _parser.Parser.get("binary")(io.BytesIO(data), w).read()
        again = conc.spec_parse(out.getvalue())
        if again != want:
            return "converted to %s: %s instead of %s" % (out.getvalue().hex(), again, want)
        if out.getvalue() != b"".join(conc.spec_bytes(*t) for t in want):
            return "converted to %s, not in shortest form" % out.getvalue().hex()
    return None


def smaller(inp):
    h = inp["hex"]
    for n in (16, 8, 4, 2):
        for i in range(0, len(h), n):
            yield {"hex": h[:i] + h[i + n:]}


KEYS = list(ITEMS)


def raw(r, kt, hints):
    if kt in NOVALUE:
        n = r.choice([0, 0, 0, 1, 2, 4])
        return bytes([kt[1] << 4 | kt[0] << 2 | {0: 0, 1: 1, 2: 2, 4: 3}[n]]) + bytes(n)
    n = r.choice([0, 1, 1, 1, 2, 2, 4])
    k = r.randrange(5)
    if k == 0 and hints:
        v = r.choice(hints)[1]
    elif k == 1:
        v = r.choice(conc.MINED)
    elif k == 2:
        v = r.choice([0, 1, 127, 128, 255, 256, 32767, 32768, 65535, 65536, (1 << 31) - 1, 1 << 31, (1 << 32) - 1])
    else:
        v = r.randrange(1 << r.randrange(1, 33))
    return bytes([kt[1] << 4 | kt[0] << 2 | {0: 0, 1: 1, 2: 2, 4: 3}[n]]) + (v % (1 << 8 * n)).to_bytes(n, "little")


def gen(r, hints):
    m = r.random()
    if m < .1:
        return {"hex": bytes(r.randrange(256) for _ in range(r.randrange(0, 12))).hex()}
    keys = KEYS if r.random() < .7 else r.sample(KEYS, 3)
    b = b"".join(raw(r, r.choice(keys), hints) for _ in range(r.choice([1, 2, 3, 5, 8, 13, 40])))
    if m < .35 and b:
        b = b[:r.randrange(len(b))]
    elif m < .45:
        i = r.randrange(len(b) + 1)
        b = b[:i] + bytes([r.randrange(256)]) + b[i:]
    elif m < .5:
        b = b + b
    return {"hex": b.hex()}


def fixed(hints):
    yield {"hex": ""}
    for h in range(256):
        for n in range(0, 6):
            for fill in (0, 1, 0x7f, 0x80, 0xff):
                yield {"hex": (bytes([h]) + bytes([fill]) * n).hex()}
        yield {"hex": (bytes([5, 1, 9, 2]) + bytes([h]) + bytes([1, 0, 0, 0])[:(0, 1, 2, 4)[h & 3]] + bytes([9, 3])).hex()}
    for page in range(0, 256):
        yield {"hex": bytes([5, page, 9, 1, 0x0a, 0xff, 0xff, 0x0b, 2, 0, page, 0, 0x19, 1, 0x29, 8, 0x81, 2]).hex()}
    for n in (5000, 66000, 140000):        # longer than any buffer
        yield {"hex": (bytes([0x07, 1, 0, 0, 0, 0x27, 1, 0, 0, 0, 0x47, 3, 0, 0, 0]) * (n // 15)).hex()}
    for n in (100, 300, 1000):
        yield {"hex": (bytes([0x05, 1, 0x09, 2]) * n).hex()}
        yield {"hex": (bytes([0x05, 1, 0x0b, 2, 1, 0, 0]) * n)[:-1].hex()}
