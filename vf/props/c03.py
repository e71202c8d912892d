"""C03: hexadecimal text and C code."""
import io
import re
import warnings
import z3
from ..lib import *
from ..tape import mkitem, fresh_value
from .. import conc, rx
from ..conc import ITEMS, NOVALUE, attempt
from .c02 import Source, raw

LEVEL = "proof"
TRUSTED = ["vf/interp.py (AST semantics of Python, cross-checked against CPython by selftest)",
           "vf/rx.py: the regular expressions found in the code, compiled from Python's own parse tree of them; cross-checked against re by selftest",
           "model of int(text, 16) on 0x-prefixed or plain hexadecimal digits", "z3 / cvc5"]
ASSUMPTIONS = ["Item.bytes gives the item's encoding (C01); Parser.blobParse reads bytes by its contract (C02)",
               "well-formed hexadecimal text: bytes of two digits, with or without 0x, separated by anything but letters, digits and underscores",
               "well-formed C code: 0x literals of two digits separated by commas, with white space and terminated comments anywhere between them"]
RULE = "a case = one item list written and read back, or one text laid out at random, through the real formatters and readers; distinct by its JSON text"
QUICK_S, QUICK_N, THOROUGH_S = 10, 4000, 180
TEXT_HINTS = True
_interp_hook = []


# ---------------------------------------------------------------- writers
class Out:
    """An open text file: keeps what is written."""
    _vf_class = True

    def __init__(self):
        self.log = []

    @property
    def write(self):
        def f(it, s):
            it.touch(self.log)
            self.log.append(s)
            return it.length(s) if isinstance(s, str) else 0
        f._vf_native = True
        return f


def pieces(log):
    if not all(isinstance(s, (str, SymStr)) for s in log):
        raise Unsupported("writes something else than text")
    s = SymStr(log)
    return list(s.p)


def tokens(ps, sep, prefix, need=""):
    """The symbolic bytes of a text made of two-digit literals, and what is wrong with the text around them."""
    out, before = [], ""
    for x in ps:
        if isinstance(x, str):
            before += x
            continue
        if not isinstance(x, HexP) or x.spec not in ("%02x", "%02X"):
            raise Unsupported("text of another shape")
        m = re.fullmatch(sep + prefix, before)
        if not m or (out and (not m.group(1) or need not in m.group(1))):
            return None, before
        out.append(x.v)
        before = ""
    return out, before


def item_with_bytes(p, it, kt):
    """An item with its encoding as symbolic bytes (contract of Item.bytes: C01)."""
    x = mkitem(it, kt, fresh_value(p, kt, keep=True))
    n = 0 if kt in NOVALUE else (0 if (kt == (0, 12)) else None)
    sizes = [0] if n == 0 else [0, 1, 2, 4] if kt == (0, 8) else [1, 2, 4]
    n = sizes[p.choose(len(sizes))]
    bs = [p.int("b%d" % i, 0, 255, keep=True) for i in range(n + 1)]

    def f(it, args, kwargs):
        return SymBytes(bs)
    for k in type(x).__mro__:
        if "bytes" in k.__dict__:
            it.hooks[k.__dict__["bytes"]] = f
    return x, bs


def unit_hex(report):
    for kt in ITEMS:
        def h(p, it):
            out = Out()
            o = it.call(_formatter.Hex, (out,))
            constant(o, *o.__dict__)
            x, bs = item_with_bytes(p, it, kt)
            it.call_method(o, "append", (x,))
            got, tail = tokens(pieces(out.log), r"([\s,]*)", r"(?:0x)?")
            p.prove("the text is hexadecimal bytes separated by blanks", got is not None)
            if got is not None:
                p.prove("the bytes are those of the item, each once, in order", land(len(got) == len(bs), *[eqi(a, b) for a, b in zip(got, bs)]))
                p.prove("the next item does not run into this one", bool(re.fullmatch(r"[\s,]*[\s,]", tail)))
            n = len(out.log)
            it.call_method(o, "close")
            p.prove("closing writes nothing but blanks", all(isinstance(s, str) and not s.strip() for s in out.log[n:]))
        run_harness(report, "hex", h)
    report.add("the hexadecimal reader and writer are found under their name", "proved" if _parser.Parser.get("hex") is _parser.Hex
               and _formatter.Formatter.get("hex") is _formatter.Hex else "failed", "evaluation", 0.0)


def safe_text(x):
    """no newline can be in this piece of a comment"""
    if isinstance(x, str):
        return "\n" not in x
    if isinstance(x, (Dec, HexP)):
        return True
    if isinstance(x, SymStr):
        return all(safe_text(y) for y in x.p)
    m = x.meaning
    if x.label in ("name", "usage text", "regname", "pagename", "usagename", "page name", "usage name"):
        return True         # a published name: see the unit `names`
    if m and m[0] == "repeat":
        return safe_text(m[1])
    if m and m[0] == "join":
        return safe_text(m[1]) and all(safe_text(v) for _, v in m[2])
    if m and m[0] == "joinblock":
        return False
    raise Unsupported("text %s in a comment" % x.label)


def unit_code(kts):
    def unit(report):
        for kt in kts:
            def h(p, it):
                out = Out()
                o = it.call(_formatter.Code, (out,))
                constant(o, *[k for k, v in o.__dict__.items() if type(v) is not int])
                for k, v in list(o.__dict__.items()):
                    if type(v) is int:
                        o.__dict__[k] = p.int(k)
                x, bs = item_with_bytes(p, it, kt)
                it.call_method(o, "append", (x,))
                ps = pieces(out.log)
                # the code up to the comment, then the comment
                at = next((i for i, s in enumerate(ps) if isinstance(s, str) and "//" in s), None)
                blk = next((i for i, s in enumerate(ps) if isinstance(s, str) and "/*" in s), None)
                if blk is not None and (at is None or blk < at):
                    raise Unsupported("block comment")
                p.prove("the bytes are followed by a comment", at is not None)
                if at is None:
                    return
                head, tail = ps[at].split("//", 1)
                got, sep = tokens(ps[:at] + [head], r"(\s*,?\s*)", "0x", ",")
                p.prove("the code is 0x literals separated by commas", got is not None and "," in sep and not sep.strip(" \t\r\n,"))
                if got is not None:
                    p.prove("the bytes are those of the item, each once, in order", land(len(got) == len(bs), *[eqi(a, b) for a, b in zip(got, bs)]))
                rest = [tail] + ps[at + 1:]
                last = rest[-1] if isinstance(rest[-1], str) else ""
                p.prove("the comment ends with the line", last.endswith("\n"))
                p.prove("the comment does not end before the line", all(safe_text(s) for s in rest[:-1]) and "\n" not in last[:-1])
                n = len(out.log)
                it.call_method(o, "close")
                p.prove("closing writes nothing but blanks", all(isinstance(s, str) and not s.strip() for s in out.log[n:]))
            run_harness(report, "code %s.%s" % kt, h)
    return unit


def unit_names(report):
    """No published name contains a line break."""
    bad = [u.name for u in UsageConst.reverse.values() if "\n" in u.name or "\r" in u.name]
    n = 0
    for m in (_item, _d, conc._usage):
        for k, v in vars(m).items():
            for c in [v] + (list(vars(v).values()) if isinstance(v, type) else []):
                if isinstance(c, NamedConstant) and isinstance(c.name, str):
                    n += 1
                    if "\n" in c.name or "\r" in c.name:
                        bad.append(c.name)
    report.add("no published name contains a line break", "failed" if bad or not n else "proved", "evaluation", 0.0, None, bad[:3] or None)
    report.add("the C code reader and writer are found under their name", "proved" if _parser.Parser.get("code") is _parser.Code
               and _formatter.Formatter.get("code") is _formatter.Code else "failed", "evaluation", 0.0)


# ---------------------------------------------------------------- readers
HEX = "0123456789abcdefABCDEF"
is_hex = lambda c: c in HEX             # noqa: E731
no_word = lambda c: not rx.word(c)      # noqa: E731
ch = lambda s: (lambda c: c in s)       # noqa: E731
nch = lambda s: (lambda c: c not in s)  # noqa: E731
blank = lambda c: c.isspace()           # noqa: E731


def lang_hex(prefix):
    """hexadecimal text; the tokens include the 0x prefix or not"""
    e = [("s", no_word, "out", "s"), ("s", is_hex, "begin", "d"), ("d", is_hex, "in", "e"), ("e", no_word, "out", "s")]
    if prefix:
        e += [("s", ch("0"), "begin", "0"), ("0", ch("x"), "in", "x"), ("x", is_hex, "in", "d")]
    else:
        e += [("s", ch("0"), "out", "0"), ("0", ch("x"), "out", "x"), ("x", is_hex, "begin", "d")]
    return rx.Language("s", ["s", "e"], e)


def code_skeleton(comments, ws, mark, bare=False):
    """C code of literals and commas; mark: what the tokens are; bare: literals may lack the 0x"""
    lit = {"lit": ("begin", "in", "in"), "digits": ("out", "out", "begin")}.get(mark, ("out", "out", "out"))
    last = "in" if mark in ("lit", "digits") else "out"
    e = []
    # s: a literal may start here; e: after a literal, a comma must come first
    for q in ("s", "e"):
        e.append((q, ch(","), "out", "s"))
        if ws:
            if mark == "blanks":        # maximal runs
                e += [(q, blank, "begin", q + "w"), (q + "w", blank, "in", q + "w"), (q + "w", ch(","), "out", "s")]
            elif mark == "blank":
                e.append((q, blank, "begin", q))
            else:
                e.append((q, blank, "out", q))
        if comments:
            t = ("begin", "in") if mark == "comments" else ("out", "out")
            e += [(q, ch("/"), t[0], q + "/"), (q + "/", ch("/"), t[1], q + "l"), (q + "l", nch("\n"), t[1], q + "l"),
                  (q + "l", ch("\n"), "out", q),
                  (q + "/", ch("*"), t[1], q + "b"), (q + "b", nch("*"), t[1], q + "b"), (q + "b", ch("*"), t[1], q + "*"),
                  (q + "*", ch("*"), t[1], q + "*"), (q + "*", nch("*/"), t[1], q + "b"), (q + "*", ch("/"), t[1], q)]
    starts = ["s"] + (["sw"] if ws and mark == "blanks" else [])
    for q in starts:
        e.append((q, ch("0"), lit[0], "0"))
        if bare:
            e.append((q, lambda c: is_hex(c) and c != "0", lit[0], "d"))
    if bare:
        e.append(("0", is_hex, last, "e"))
    e += [("0", ch("x"), lit[1], "x"), ("x", is_hex, lit[2], "d"), ("d", is_hex, last, "e")]
    final = ["s", "e"] + (["sw", "ew"] if ws and mark == "blanks" else []) + (["sl", "el"] if comments else [])
    return rx.Language("s", final, e)


class Text:
    """A well-formed text of any length (the piece of a SymStr)."""
    nonempty = None
    label, parts, meaning = "contents", None, None

    def __init__(self, kind, comments=False, ws=True, blob=None, bare=False):
        self.kind, self.comments, self.ws, self.bare = kind, comments, ws, bare
        self.blob = blob if blob is not None else object()

    def key(self):
        return ("text", id(self))

    def to(self, **kw):
        d = dict(kind=self.kind, comments=self.comments, ws=self.ws, blob=self.blob, bare=self.bare)
        d.update(kw)
        return SymStr([Text(**d)])

    def vf_text_method(self, it, n, args, kw):
        if n == "split" and args == (",",) and self.kind == "code" and not self.ws and not self.comments:
            return [token_block(it, self.blob, True, [True, False] if self.bare else [True])]
        return NotImplemented


def token_block(it, blob, empty, prefixes):
    p = it.path

    def tok(prefix, spec):
        def make(it, i):
            b = it.path.int("byte", 0, 255)
            s = SymStr((["0x"] if prefix else []) + [HexP(b, spec)])
            return s
        return ("literal", make)
    cases = [tok(x, s) for x in prefixes for s in ("%02x", "%02X")]
    if empty:
        cases.append(("empty", lambda it, i: ""))
    b = Block(p.int("n", 0), cases, None, "tokens")
    b.of_blob = blob
    return b


class BlobOf(SymBytes):
    """bytes made of the tokens of a text, in order"""
    __slots__ = ("xs",)

    def __init__(self, xs):
        SymBytes.__init__(self, [], None)
        self.xs = xs

    def no(self, *a):
        raise Unsupported("operation on bytes read from text")
    __len__ = __bool__ = __getitem__ = __iter__ = __add__ = __radd__ = length = no


def scans(p, pattern, flags, languages, reader, what):
    """The first of the languages whose tokens the pattern finds exactly, in every text."""
    try:
        prog = rx.Program(pattern, flags)
    except rx.NotCovered as e:
        raise Unsupported("regular expression %r: %s" % (pattern, e))
    bad = None
    for k, l in enumerate(languages):
        try:
            r = rx.decide(prog, l)
        except rx.NotCovered as e:
            raise Unsupported("regular expression %r: %s" % (pattern, e))
        if r is None:
            p.prove("the pattern finds exactly the %s, in texts of any length" % what, True)
            return k
        bad = bad or r
    if (reader(bad[1]) if callable(reader) else check({reader + "text": bad[1]})) is not None:
        p.report.add("the pattern finds exactly the %s, in texts of any length" % what, "failed", "automata", 0.0, {"text": bad[1]}, bad[0])
        raise PathEnd
    raise Unsupported("regular expression %r does not find the %s as expected: %s in %r" % ((pattern, what) + bad))


def reading(p, it, kind, replay=None, bare=False):
    """A well-formed text of any length, about to be read; returns it with what stands for its bytes."""
    blob = object()
    text = Text(kind, kind == "code", True, blob, bare)

    def findall(it, pat, s, flags):
        t = s.p[0] if isinstance(s, SymStr) and len(s.p) == 1 else None
        if not isinstance(t, Text):
            raise Unsupported("findall of other text")
        if t.kind == "hex":
            k = scans(p, pat, flags, [lang_hex(True), lang_hex(False)], replay or kind, "bytes")
            prefixes = [True, False] if k == 0 else [False]
        else:
            k = scans(p, pat, flags, [code_skeleton(t.comments, t.ws, "lit", t.bare)] + ([] if t.bare else [code_skeleton(t.comments, t.ws, "digits")]), replay or kind, "literals")
            prefixes = [True, False] if t.bare else [k == 0]
        return [token_block(it, t.blob, False, prefixes)]

    def sub(it, pat, repl, s, count, flags):
        t = s.p[0] if isinstance(s, SymStr) and len(s.p) == 1 else None
        if not isinstance(t, Text) or t.kind != "code" or count or repl not in ("", " "):
            raise Unsupported("substitution in other text")
        if t.comments:
            scans(p, pat, flags, [code_skeleton(True, t.ws, "comments", t.bare)], replay or kind, "comments")
            return t.to(comments=False)
        if repl:
            raise Unsupported("substitution of blanks")
        scans(p, pat, flags, [code_skeleton(False, True, "blanks", t.bare), code_skeleton(False, True, "blank", t.bare)], replay or kind, "blanks")
        return t.to(ws=False)
    it.re_findall, it.re_sub = findall, sub
    it.bytes_block = lambda it, xs: BlobOf(list(xs))
    return SymStr([text]), blob


def bytes_of(p, it, got, blob):
    """got: the bytes of the text"""
    xs = got.xs
    ok = len(xs) == 1 and isinstance(xs[0], Derived) and isinstance(xs[0].src, Block)
    p.prove("what is parsed are the bytes of the text, in order", ok)
    if not ok:
        return
    d = xs[0]
    # through intermediate element-by-element steps: an element of a later step is what an earlier one made
    steps = [d]
    while isinstance(steps[-1].src, Derived):
        steps.append(steps[-1].src)
    p.prove("all the tokens of the text are taken", getattr(steps[-1].src, "of_blob", None) is blob)

    def chains(k, x):
        """(condition, results) of steps[k], steps[k-1], ... from x"""
        for label, elem, pc, out in steps[k].results:
            if elem is not x:
                continue
            if not out or k == 0:
                yield pc, out
                continue
            if len(out) != 1:
                raise Unsupported("several passes over the tokens")
            found = False
            for pc2, out2 in chains(k - 1, out[0]):
                found = True
                yield z3.And(zb(mkbool(pc)), zb(mkbool(pc2))), out2
            if not found:
                raise Unsupported("several passes over the tokens")
    seen = []
    for label, elem, pc, out in steps[-1].results:
        if any(elem is x for x in seen):
            continue
        seen.append(elem)
        for pc, out in chains(len(steps) - 1, elem):
            if label == "empty":
                p.prove("nothing between two commas is no byte", out == [] or lnot(mkbool(pc)))
                continue
            v = [x for x in elem.p if isinstance(x, HexP)][0].v
            good = len(out) == 1 and eqi(it.to_int(out[0]), v)
            p.prove("every literal gives its byte, once", lor(lnot(mkbool(pc)), good))


def unit_read(kind, cls):
    def unit(report):
        def h(p, it):
            text, blob = reading(p, it, kind)
            seen = []

            def parse(it, args, kwargs):
                seen.append(args[1])
            it.hooks[_parser.Parser.blobParse] = parse
            o = it.call(cls, (Source(text), None))
            it.call_method(o, "read")
            p.prove("the bytes of the text are parsed once", len(seen) == 1 and isinstance(seen[0], BlobOf))
            if len(seen) == 1 and isinstance(seen[0], BlobOf):
                bytes_of(p, it, seen[0], blob)
        run_harness(report, "read", h)
    return unit


KEYS = list(ITEMS)
UNITS = [("hex writer", unit_hex), ("names", unit_names), ("hex reader", unit_read("hex", _parser.Hex)), ("code reader", unit_read("code", _parser.Code))]
UNITS += [("code writer %d" % i, unit_code(KEYS[i::6])) for i in range(6)]


# ---------------------------------------------------------------- run time
def lex_hex(text):
    """independent reading of hexadecimal text; None: not well-formed"""
    out, i = [], 0
    word = ""
    for c in text + " ":
        if rx.word(c):
            word += c
            continue
        if word:
            w = word[2:] if len(word) == 4 and word[:2] == "0x" else word
            if len(w) != 2 or any(x not in HEX for x in w):
                return None
            out.append(int(w, 16))
        word = ""
    return bytes(out)


def lex_code(text, bare=False):
    """independent reading of C code; None: not well-formed; bare: literals may lack the 0x"""
    out, i, n = [], 0, len(text)
    comma = True
    while i < n:
        c = text[i]
        if text.startswith("//", i):
            while i < n and text[i] != "\n":
                i += 1
        elif text.startswith("/*", i):
            j = text.find("*/", i + 2)
            if j < 0:
                return None
            i = j + 2
        elif c.isspace():
            i += 1
        elif c == ",":
            comma = True
            i += 1
        elif text.startswith("0x", i) and i + 4 <= n and text[i + 2] in HEX and text[i + 3] in HEX:
            if not comma:
                return None
            out.append(int(text[i + 2:i + 4], 16))
            comma = False
            i += 4
        elif bare and i + 2 <= n and text[i] in HEX and text[i + 1] in HEX:
            if not comma:
                return None
            out.append(int(text[i:i + 2], 16))
            comma = False
            i += 2
        else:
            return None
    return bytes(out)


def lenient(data):
    i = 0
    while i < len(data):
        n = (0, 1, 2, 4)[data[i] & 3]
        if (data[i] >> 2 & 3, data[i] >> 4) in NOVALUE and any(data[i + 1:i + 1 + n]):
            return True
        i += 1 + n
    return False


def read(name, f):
    s = conc.Sink()
    r = attempt(lambda: _parser.Parser.get(name)(f, s).read())
    return r, s


def check(inp):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return check_(inp)


def check_(inp):
    for name, lex in (("hex", lex_hex), ("code", lex_code)):
        if name + "text" in inp:
            data = lex(inp[name + "text"])
            if data is None or lenient(data):
                return "skip" if data is not None and "bytes" not in inp else None
            if "bytes" in inp and data.hex() != inp["bytes"]:
                raise AssertionError("generator: %r" % inp)
            want = conc.spec_parse(data)
            r, s = read(name, io.StringIO(inp[name + "text"], newline=""))
            if want is None:
                if r[0] == "ok":
                    return "%s text of a malformed descriptor read as %s" % (name, s.triples())
                return None
            if r[0] != "ok":
                return "%s text refused: %s" % (name, r)
            if s.triples() != want:
                return "%s text read as %s, not %s" % (name, s.triples(), want)
            if not s.ok():
                return "consumer closed %d times" % s.closed
            return None
    items = [conc.mk(t) for t in inp["items"]]
    data = b"".join(conc.spec_bytes(*t) for t in inp["items"])
    want = conc.spec_parse(data)
    for name, lex in (("hex", lex_hex), ("code", lex_code)):
        out = io.StringIO()
        w = _formatter.Formatter.get(name)(out)
        for x, t in zip(items, inp["items"]):
            at = out.tell()
            w.append(x)
            part = out.getvalue()[at:]
            b = lex(part)
            if b != conc.spec_bytes(*t):
                return "%s text of %s is %r" % (name, t, part)
            if name == "code" and not re.search(r"//|/\*", part):
                return "no comment in %r" % part
        w.close()
        text = out.getvalue()
        if lex(text) != data:
            return "%s text %r gives %s, not %s" % (name, text, lex(text), data.hex())
        r, s = read(name, io.StringIO(text))
        if r[0] != "ok":
            return "%s text written is refused: %s" % (name, r)
        if s.triples() != want:
            return "%s text read back as %s, not %s" % (name, s.triples(), want)
        r, s2 = read("binary", io.BytesIO(data))
        if r[0] != "ok" or s2.triples() != s.triples():
            return "%s text and binary form read differently: %s, %s" % (name, s.triples(), s2.triples())
    return None


def smaller(inp):
    if "items" in inp:
        for i in range(len(inp["items"])):
            yield {"items": inp["items"][:i] + inp["items"][i + 1:]}
        return
    k = "hextext" if "hextext" in inp else "codetext"
    t = inp[k]
    lex = lex_hex if k == "hextext" else lex_code
    for n in (32, 8, 4, 2, 1):
        for i in range(0, len(t), n):
            s = t[:i] + t[i + n:]
            if lex(s) is not None:
                yield {k: s}


WS = [" ", "\n", "\t", "\r\n", "  ", "\n\n", "\x0b", "\x0c", " \n\t", "\r"]
BITS = ["//", "/*", "*/", "*", "/", "0x05", "05", ", ", "0x", "\\", "\\n", '"', "'", "abc", " ", "ff,", "{", "};", "0x09, 0x01,", "é"]


def comment(r):
    body = "".join(r.choice(BITS) for _ in range(r.randrange(6)))
    if r.random() < .5:
        return "//" + body.replace("\n", "") + "\n"
    body = "".join(r.choice([b, "\n"]) for b in ([body] + [r.choice(BITS) for _ in range(r.randrange(3))]))
    while "*/" in body:
        body = body.replace("*/", "*")
    return "/*" + body + ("" if not body.endswith("*") else r.choice(["", "*", "***"])) + "*/"


def lit(r, b):
    s = "%02x" % b
    return r.choice([s, s.upper(), s[0].upper() + s[1]])


def code_text(r, data):
    def gap():
        return "".join(r.choice([lambda: r.choice(WS), lambda: comment(r)])() for _ in range(r.choice([0, 0, 1, 1, 2, 4])))
    t = gap()
    for i, b in enumerate(data):
        t += "0x" + lit(r, b) + gap()
        if i + 1 < len(data) or r.random() < .7:
            t += "," + gap()
    if r.random() < .15:
        t += "// " + "".join(r.choice(BITS) for _ in range(3)).replace("\n", "")
    return t


def hex_text(r, data):
    seps = r.choice([[" "], ["\n"], WS, [", ", ",", ";", " - ", ":", "\n", "|", ".", "/", "(", ") "]])
    style = r.choice(["", "0x", None])
    t = r.choice(["", "", r.choice(seps)])
    for b in data:
        t += (style if style is not None else r.choice(["", "0x"])) + lit(r, b) + "".join(r.choice(seps) for _ in range(r.choice([1, 1, 2])))
    return t.rstrip() if r.random() < .3 and lex_hex(t.rstrip()) is not None else t


def gen(r, hints):
    texts = [v for k, v in hints if isinstance(v, str)]
    nums = [h for h in hints if isinstance(h[1], int)]
    if texts and r.random() < .1:
        t = r.choice(texts)
        return {"hextext" if lex_hex(t) is not None else "codetext": t}
    m = r.random()
    n = r.choice([0, 1, 1, 2, 3, 5, 12])
    if m < .4:
        out = []
        keys = KEYS if r.random() < .7 else r.sample(KEYS, 3)
        for _ in range(n):
            kt = r.choice(keys)
            if kt in NOVALUE:
                out.append([kt[0], kt[1], 0])
                continue
            lo, hi = (-(1 << 31), (1 << 31) - 1) if ITEMS[kt][1] else (0, (1 << 32) - 1)
            q = r.randrange(6)
            v = r.choice(nums)[1] if q == 0 and nums else r.choice(conc.MINED) if q == 1 else r.randrange(1 << r.randrange(1, 33)) if q < 5 else r.randrange(200)
            if ITEMS[kt][1] and r.random() < .4:
                v = -v
            out.append([kt[0], kt[1], min(max(v, lo), hi)])
        return {"items": out}
    if m < .9:
        data = b"".join(raw(r, r.choice(KEYS), nums) for _ in range(n))
        if r.random() < .08:
            data = data[:-1]
    else:
        data = bytes(r.randrange(256) for _ in range(n))
    if r.random() < .5:
        return {"codetext": code_text(r, data), "bytes": data.hex()}
    return {"hextext": hex_text(r, data), "bytes": data.hex()}


def fixed(hints):
    for k, v in hints:
        if isinstance(v, str):
            yield {"hextext" if lex_hex(v) is not None else "codetext": v}
    from ..conc import boundary
    for kt in KEYS:
        if kt in NOVALUE:
            yield {"items": [[kt[0], kt[1], 0]]}
            continue
        lo, hi = (-(1 << 31), (1 << 31) - 1) if ITEMS[kt][1] else (0, (1 << 32) - 1)
        vs = [v for v in boundary(ITEMS[kt][1]) if lo <= v <= hi]
        for v in vs:
            yield {"items": [[kt[0], kt[1], v]]}
    for b in range(256):                # every byte value, in every position of a four byte item
        for pos in range(4):
            data = bytes([0x07] + [b if i == pos else 1 for i in range(4)])
            for s in ("%02x", "%02X"):
                yield {"hextext": " ".join(s % x for x in data)}
                yield {"hextext": ",".join("0x" + s % x for x in data)}
                yield {"codetext": ", ".join("0x" + s % x for x in data)}
    for name in sorted({u.value for u in UsageConst.reverse.values()}):
        yield {"items": [[2, 0, name]]}
        if name < 1 << 16:
            yield {"items": [[1, 0, name]]}
    yield {"items": [[0, 10, 1]] * 9 + [[2, 0, 0x10002], [0, 8, 2]] + [[0, 12, 0]] * 9}
    yield {"items": [[0, 12, 0]] * 5 + [[0, 10, 1]]}
    for n in (1500, 25000):                # longer than any buffer
        yield {"items": [[1, 2, 0x12345678 + i] for i in range(n)]}
        yield {"codetext": "0x27, 1, 2, 3, 4, // " + "x" * n + "\n" + "0x27,1,2,3,4, /* */\n" * (n // 10)}
