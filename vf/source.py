"""Python source text written by the code under contract, read back: what is written (text with symbolic parts)
is parsed as Python with one name standing for each symbolic part, and evaluated by the interpreter."""
import ast
import io
import re
import z3
from .lib import *
from .interp import Frame

try:
    import re._parser as _sre
    import re._constants as _srec
except ImportError:             # pragma: no cover
    import sre_parse as _sre
    import sre_constants as _srec

MARK = "vf_p%d_"


class Out:
    """An open text file: keeps what is written."""
    _vf_class = True

    def __init__(self):
        self.log = []

    @property
    def write(self):
        def f(it, s):
            if not isinstance(s, (str, SymStr)):
                raise TypeError("write() argument must be str")
            it.touch(self.log)
            self.log.append(s)
            return 0
        f._vf_native = True
        return f


def table(v, texts, label="table"):
    """Text that is a function of the number v."""
    return Opaque(label, nonempty=all(texts.values()), meaning=("table", v, dict(texts)))


def named_by(p, v, texts, cls=NamedConstant):
    """A named constant of number v, named after the table."""
    c = object.__new__(cls)
    c.value, c.name = v, SymStr([table(v, texts)])
    lo, hi = min(texts), max(texts)
    p.assume(z3.And(v.e >= lo, v.e <= hi) if len(texts) == hi - lo + 1 else z3.Or([v.e == k for k in texts]))
    return c


def letters_only(pat):
    """No match of the pattern within decimal digits and minus signs."""
    def chars(op, av):
        if op is _srec.LITERAL:
            return chr(av) not in "-0123456789"
        if op is _srec.IN:
            for o, a in av:
                if o is _srec.LITERAL and chr(a) not in "-0123456789":
                    continue
                if o is _srec.RANGE and not any(a[0] <= ord(c) <= a[1] for c in "-0123456789"):
                    continue
                return False
            return True
        if op is _srec.SUBPATTERN:
            return some(av[3])
        if op in (_srec.MAX_REPEAT, _srec.MIN_REPEAT):
            return av[0] >= 1 and some(av[2])
        return False

    def some(seq):
        return any(chars(op, av) for op, av in seq)
    return some(_sre.parse(pat))


def re_sub(it, pat, repl, string, count, flags):
    if flags or count or not isinstance(pat, str) or not isinstance(repl, str) or len(string.p) != 1:
        raise Unsupported("re.sub of another kind on symbolic text")
    x = string.p[0]
    if isinstance(x, Opaque) and x.meaning and x.meaning[0] == "table":
        return SymStr([table(x.meaning[1], {k: re.sub(pat, repl, t) for k, t in x.meaning[2].items()}, x.label)])
    if isinstance(x, Dec) and letters_only(pat):
        return string
    raise Unsupported("re.sub on such symbolic text")


class Text:
    """What was written, as Python text with names for its symbolic parts."""

    def __init__(self, p, it, ns):
        self.p, self.it, self.ns = p, it, ns
        self.out, self.bound, self.n = [], {}, 0

    def last(self):
        for s in reversed(self.out):
            if s:
                return s[-1]
        return "\n"

    def mark(self, meaning):
        name = MARK % self.n
        self.n += 1
        self.bound[name] = meaning
        return name

    def add(self, log):
        for x in log:
            if isinstance(x, SymStr):
                self.add(x.p)
            elif isinstance(x, str):
                self.out.append(x)
            elif isinstance(x, Dec):
                self.word(("number", x.v))
            elif isinstance(x, HexP):
                if x.spec != "0x" and x.spec not in ("%#x", "%#X"):
                    raise Unsupported("hexadecimal number of another shape")
                self.word(("number", x.v))
            elif isinstance(x, Opaque) and x.meaning and x.meaning[0] == "repeat":
                s, n = x.meaning[1:]
                if not (isinstance(s, str) and s and not s.strip(" ")):
                    raise Unsupported("repeated text that is not blank")
                if self.last() not in "\n ,([":
                    raise Unsupported("blanks within a line")
                if n != 0 and not self.p.valid(zi(n) >= 0):
                    raise Unsupported("blanks, or none")
            elif isinstance(x, Opaque) and x.meaning and x.meaning[0] in ("usage", "table", "member"):
                self.word(x.meaning)
            elif isinstance(x, Derived):
                self.loop(x)
            elif isinstance(x, Opaque) and x.meaning and x.meaning[0] == "joinblock" and x.meaning[1] == "" and isinstance(x.meaning[2], Derived):
                self.loop(x.meaning[2])
            else:
                raise Unsupported("text of another kind")

    def word(self, meaning):
        if self.last().isalnum() or self.last() in "_\"'":
            raise Unsupported("symbolic text within a word")
        self.out.append(self.mark(meaning))

    def loop(self, x):
        """One text per element of a block, one argument each: the block, starred."""
        p, it = self.p, self.it
        if x.dropped() if callable(getattr(x, "dropped", None)) else False:
            raise Unsupported("text of a filtered list")
        for label, elem, pc, parts in x.results:
            sub = Text(p, it, self.ns)
            sub.out.append("[\n")
            sub.add(parts)
            sub.out.append("]")
            try:
                tree = ast.parse("".join(sub.out), mode="eval").body
            except SyntaxError:
                p.prove("source: each element is one expression followed by a comma", False)
                raise PathEnd
            p.prove("source: each element is one expression followed by a comma", isinstance(tree, ast.List) and len(tree.elts) == 1
                    and "".join(sub.out)[:-1].rstrip().endswith(","))
            got = sub.value(tree.elts[0])
            if isinstance(elem, Member):
                p.prove("source: each member, where it stands", got is elem.again)
            else:
                p.prove("source: each element has its number", mkbool(z3.Implies(pc, zi(it.to_int(got)) == zi(it.to_int(elem)))))
        src = x.src
        if self.last() not in "\n ,([":
            raise Unsupported("elements within a line")
        self.out.append("*" + self.mark(("block", src)) + ",\n")

    def source(self):
        return "".join(self.out)

    # ------------------------------------------------------------- values
    def bind(self, node):
        """Give every name its value; symbolic parts stand for whole arguments only."""
        ok = set()
        for n in ast.walk(node):
            if isinstance(n, ast.Call):
                ok |= {id(a) for a in n.args} | {id(k.value) for k in n.keywords}
            elif isinstance(n, (ast.List, ast.Tuple)):
                ok |= {id(a) for a in n.elts}
            elif isinstance(n, (ast.Expression, ast.Starred)):
                ok |= {id(n.body if isinstance(n, ast.Expression) else n.value)}
        ok.add(id(node))
        vals = {}
        text = self

        class Sub(ast.NodeTransformer):
            def visit_Attribute(self, n):
                if n.attr in text.bound:
                    m = text.bound[n.attr]
                    if m[0] != "table" or id(n) not in ok or any(isinstance(b, ast.Name) and b.id in text.bound for b in ast.walk(n.value)):
                        raise Unsupported("symbolic attribute")
                    base = ast.unparse(n.value)
                    vals["vf_a" + n.attr] = text.number(m[1], {k: (base + "." + t if t.isidentifier() else None) for k, t in m[2].items()})
                    return ast.copy_location(ast.Name("vf_a" + n.attr, ast.Load()), n)
                return self.generic_visit(n)

            def visit_Name(self, n):
                if n.id in text.bound:
                    if id(n) not in ok:
                        raise Unsupported("symbolic text in an expression")
                    vals[n.id] = text.meant(text.bound[n.id])
                elif "vf_p" in n.id:
                    raise Unsupported("symbolic text within a word")
                return n
        node = Sub().visit(node)
        for n in ast.walk(node):
            for v in (getattr(n, "arg", None), getattr(n, "attr", None), getattr(n, "value", None)):
                if isinstance(v, str) and "vf_p" in v:
                    raise Unsupported("symbolic text within a word")
        return node, vals

    def meant(self, m):
        if m[0] == "number":
            return m[1]
        if m[0] == "usage":
            return abstract_usage(m[1])
        if m[0] == "table":
            return self.number(m[1], m[2])
        if m[0] == "member":
            return m[1]
        if m[0] == "block":
            b = m[1]
            return [rebuilt(b) if hasattr(b, "vf_member") else b]
        raise Unsupported("symbolic text of another kind")

    def number(self, v, texts):
        """The number the text evaluates to."""
        e = zi(v)
        key = (id(self.ns), frozenset(texts.items()))
        if key not in GROUND:
            g = {k: ground(self.ns, t) for k, t in texts.items()}
            GROUND[key] = [k for k, n in g.items() if n is None], [(k, n) for k, n in g.items() if n is not None and n != k]
        bad, other = GROUND[key]
        for k, n in other:
            e = z3.If(zi(v) == k, n, e)
        self.p.prove("source: every name in it stands for a number", mkbool(z3.And([zi(v) != k for k in bad])) if bad else True)
        return mkint(e)

    def value(self, node):
        node, vals = self.bind(node)
        fr = Frame(dict(self.ns, **vals), None, None, "<source>", None)
        return self.it.ev(node, fr)


GROUND = {}


def ground(ns, text):
    """int(text evaluated), when it reads as one argument; else None"""
    try:
        t = ast.parse("f(x=%s)" % text, mode="eval").body
        u = ast.parse("f(%s)" % text, mode="eval").body
        if not (isinstance(t, ast.Call) and len(t.keywords) == 1 and not t.args and isinstance(u, ast.Call) and len(u.args) == 1 and not u.keywords) \
                or "#" in text or "\n" in text:
            return None
        return int(eval(text, dict(ns)))        # noqa: S307 - ground text of the code under check
    except Exception:       # noqa: BLE001
        return None


class Member:
    """A member of a description: writes one argument that evaluates to `again`."""
    _vf_class = True

    def __init__(self, again):
        self.again = again

    @property
    def accept(self):
        def f(it, visitor):
            w = find_out(visitor)
            it.touch(w.log)
            w.log.append(SymStr([Opaque("member", nonempty=True, meaning=("member", self.again)), ",\n"]))
        f._vf_native = True
        return f


def find_out(visitor):
    outs = [v for v in visitor.__dict__.values() if isinstance(v, Out)]
    if len(outs) != 1:
        raise Unsupported("output kept another way")
    return outs[0]


def members(p):
    """Any number of members."""
    again = object()
    b = Block(p.int("members", 0), None, lambda it, i: Member(again), "members")
    b.vf_member = Member(again)
    return b


def rebuilt(b):
    if not hasattr(b, "vf_again"):
        b.vf_again = Block(b.n, None, lambda it, i: b.vf_member.again, "members again")
    return b.vf_again
