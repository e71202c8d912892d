"""Regular expressions of the code, decided over all texts of a regular language.

A pattern is compiled (from Python's own parse tree of it) to a backtracking program whose
priorities are those of Python's matcher; a `language` describes annotated texts: which
characters form the tokens that the pattern must find.  decide() proves, over texts of any
length and over all of Unicode, that scanning finds exactly the tokens: at the start of
each token the preferred match is that token, and nowhere else is there a match.  It explores the
(finite) product of the language with the ordered list of the program's threads.
The compiler is checked against Python's re by selftest.
"""
import re
import sys
try:
    from re import _parser as sre, _constants as C
except ImportError:                                     # pragma: no cover
    import sre_parse as sre
    import sre_constants as C


class NotCovered(Exception):
    """a construct the compiler does not know"""


# ------------------------------------------------------------------ programs
CAT = {C.CATEGORY_DIGIT: lambda c: c.isdecimal(), C.CATEGORY_NOT_DIGIT: lambda c: not c.isdecimal(),
       C.CATEGORY_SPACE: lambda c: c.isspace(), C.CATEGORY_NOT_SPACE: lambda c: not c.isspace(),
       C.CATEGORY_WORD: lambda c: c.isalnum() or c == "_", C.CATEGORY_NOT_WORD: lambda c: not (c.isalnum() or c == "_")}


def word(c):
    return c is not None and (c.isalnum() or c == "_")


def in_set(items):
    neg = bool(items) and items[0][0] is C.NEGATE
    tests = []
    for op, a in items[1 if neg else 0:]:
        if op is C.LITERAL:
            tests.append(lambda c, a=chr(a): c == a)
        elif op is C.RANGE:
            tests.append(lambda c, a=a: a[0] <= ord(c) <= a[1])
        elif op is C.CATEGORY and a in CAT:
            tests.append(CAT[a])
        else:
            raise NotCovered(str(op))
    return lambda c: any(t(c) for t in tests) != neg


class Program:
    """code: ("char", pred) | ("split", a, b) | ("jmp", a) | ("at", what) | ("match",)"""

    def __init__(self, pattern, flags=0):
        if not isinstance(pattern, str):
            raise NotCovered("pattern")
        if any(ord(c) >= TOP for c in pattern) or re.search(r"\\[uUxN]", pattern):
            raise NotCovered("characters")
        tree = sre.parse(pattern, int(flags))
        fl = tree.state.flags
        if fl & ~(re.DOTALL | re.UNICODE | re.VERBOSE | re.MULTILINE):
            raise NotCovered("flags")
        if tree.state.groups != 1:
            raise NotCovered("groups")
        self.dotall, self.multi = bool(fl & re.DOTALL), bool(fl & re.MULTILINE)
        self.code = []
        self.seq(tree)
        self.code.append(("match",))
        if len(self.code) > 400:
            raise NotCovered("size")
        self.closed = {}

    def emit(self, *x):
        self.code.append(x)
        return len(self.code) - 1

    def seq(self, t):
        for op, a in t:
            self.node(op, a)

    def node(self, op, a):
        if op is C.LITERAL:
            self.emit("char", lambda c, a=chr(a): c == a)
        elif op is C.NOT_LITERAL:
            self.emit("char", lambda c, a=chr(a): c != a)
        elif op is C.ANY:
            self.emit("char", (lambda c: True) if self.dotall else (lambda c: c != "\n"))
        elif op is C.IN:
            self.emit("char", in_set(a))
        elif op is C.SUBPATTERN:
            if a[0] is not None or a[1] or a[2]:
                raise NotCovered("group")
            self.seq(a[3])
        elif op is C.BRANCH:
            ends = []
            for k, alt in enumerate(a[1]):
                if k < len(a[1]) - 1:
                    s = self.emit("split", None, None)
                    self.seq(alt)
                    ends.append(self.emit("jmp", None))
                    self.code[s] = ("split", s + 1, len(self.code))
                else:
                    self.seq(alt)
            for e in ends:
                self.code[e] = ("jmp", len(self.code))
        elif op in (C.MAX_REPEAT, C.MIN_REPEAT):
            lo, hi, body = a
            greedy = op is C.MAX_REPEAT
            if (lo > 20) or (hi is not C.MAXREPEAT and hi > 20):
                raise NotCovered("repeat")
            for _ in range(lo):
                self.seq(body)
            if hi is C.MAXREPEAT:
                if sre.SubPattern.getwidth(body)[0] == 0:
                    raise NotCovered("repeat of something empty")
                s = self.emit("split", None, None)
                self.seq(body)
                self.emit("jmp", s)
                n = len(self.code)
                self.code[s] = ("split", s + 1, n) if greedy else ("split", n, s + 1)
            else:
                splits = []
                for _ in range(hi - lo):
                    splits.append(self.emit("split", None, None))
                    self.seq(body)
                n = len(self.code)
                for s in splits:
                    self.code[s] = ("split", s + 1, n) if greedy else ("split", n, s + 1)
        elif op is C.AT:
            if a not in (C.AT_BOUNDARY, C.AT_NON_BOUNDARY, C.AT_BEGINNING, C.AT_END, C.AT_BEGINNING_STRING, C.AT_END_STRING):
                raise NotCovered(str(a))
            if a is C.AT_END:
                raise NotCovered("$")
            self.emit("at", a)
        else:
            raise NotCovered(str(op))

    def holds(self, what, prev, nxt):
        if what is C.AT_BOUNDARY:
            return word(prev) != word(nxt)
        if what is C.AT_NON_BOUNDARY:
            return word(prev) == word(nxt)
        if what is C.AT_BEGINNING_STRING or what is C.AT_BEGINNING:
            return prev is None or (self.multi and what is C.AT_BEGINNING and prev == "\n")
        return nxt is None

    def close(self, threads, prev, nxt):
        """threads in order of preference -> (consuming threads up to a match, match or not)"""
        key = (threads, prev, nxt)
        r = self.closed.get(key)
        if r is not None:
            return r
        out, seen = [], set()
        stack = list(reversed(threads))
        match = False
        while stack:
            pc = stack.pop()
            if pc in seen:
                continue
            seen.add(pc)
            x = self.code[pc]
            if x[0] == "char":
                out.append(pc)
            elif x[0] == "jmp":
                stack.append(x[1])
            elif x[0] == "split":
                stack.append(x[2])
                stack.append(x[1])
            elif x[0] == "at":
                if self.holds(x[1], prev, nxt):
                    stack.append(pc + 1)
            else:
                match = True
                break
        r = self.closed[key] = (tuple(out), match)
        return r

    def step(self, threads, c):
        return tuple(pc + 1 for pc in threads if self.code[pc][1](c))

    def predicates(self):
        return [x[1] for x in self.code if x[0] == "char"] + ([word] if any(x[0] == "at" for x in self.code) else [])

    def match_at(self, text, i):
        """end of the preferred match at i, or None (for the selftest)"""
        threads, end = (0,), None
        for k in range(i, len(text) + 1):
            prev, nxt = text[k - 1] if k else None, text[k] if k < len(text) else None
            threads, m = self.close(threads, prev, nxt)
            if m:
                end = k
            if nxt is None or not threads:
                break
            threads = self.step(threads, nxt)
        return end

    def scan(self, text):
        out, i = [], 0
        while i <= len(text):
            e = self.match_at(text, i)
            if e is None or e == i:
                i += 1
                continue
            out.append((i, e))
            i = e
        return out


# ------------------------------------------------------------------ languages
class Language:
    """Annotated texts.  edges: (state, predicate, mark, state); mark: "out" | "begin" | "in"."""

    def __init__(self, start, final, edges):
        self.start, self.final, self.edges = start, final, edges


_beyond = []
TOP = 0x3000


def partition(preds):
    """One character for every class of characters the predicates tell apart, over all of Unicode.
    From TOP on no predicate names a character (Program refuses such patterns): what tells them apart
    is their category alone."""
    if not _beyond:
        d = {}
        for o in range(TOP, sys.maxunicode + 1):
            c = chr(o)
            d.setdefault((c.isalnum(), c.isdecimal(), c.isspace()), c)
        _beyond.extend(d.values())
    seen = {}
    for c in [chr(o) for o in list(range(32, 127)) + list(range(32)) + list(range(127, TOP))] + _beyond:
        seen.setdefault(tuple(bool(p(c)) for p in preds), c)
    return list(seen.values())


def alphabet(program, language):
    return partition(program.predicates() + [e[1] for e in language.edges])


def decide(program, language, limit=200000):
    """None if scanning finds exactly the tokens in every text; otherwise (problem, text)."""
    sigma = alphabet(program, language)
    edges = {}
    for q, pred, mark, r in language.edges:
        for c in sigma:
            if pred(c):
                edges.setdefault(q, []).append((c, mark, r))
    finals = set(language.final)
    # can the text still be completed from q?
    live = set(finals)
    while True:
        more = {q for q, es in edges.items() if any(r in live for _, _, r in es)} - live
        if not more:
            break
        live |= more
    seen = {(language.start, None): ""}
    work = [(language.start, None)]
    starts = []
    while work:
        q, prev = work.pop(0)
        pre = seen[q, prev]
        starts.append((q, prev, pre))
        for c, mark, r in edges.get(q, []):
            if r in live and (r, c) not in seen:
                seen[r, c] = pre + c
                work.append((r, c))
    for q, prev, pre in starts:
        for kind in ("out", "begin"):
            if not any(m == kind and r in live for _, m, r in edges.get(q, [])) and not (kind == "out" and q in finals):
                continue
            bad = attempt(program, edges, finals, live, q, prev, pre, kind, limit)
            if bad:
                return bad
    return None


def attempt(program, edges, finals, live, q, prev, pre, kind, limit):
    """A match started at this position: fails everywhere ("out") or gives the token ("begin")."""
    s0 = (q, prev, (0,), None, False, True)       # state, previous, threads, best, token over, first position
    seen, work, n = {s0: pre}, [s0], 0
    while work:
        s = work.pop()
        q, prev, threads, best, over, first = s
        text = seen[s]
        n += 1
        if n > limit:
            raise NotCovered("too many states")
        nexts = [(c, m, r) for c, m, r in edges.get(q, []) if r in live]
        if first:
            nexts = [x for x in nexts if x[1] == kind]
        opts = list(nexts)
        if q in finals and not (first and kind == "begin"):
            opts.append((None, "out", None))
        for c, m, r in opts:
            here = over
            end_here = kind == "begin" and not first and not over and m != "in"
            cons, match = program.close(threads, prev, c)
            b = best
            if match:
                b = "right" if end_here else "wrong"
            if kind == "out":
                if match:
                    return ("a match where there is no token", finish(edges, finals, live, text, c, r))
                if c is None or not cons:
                    continue
            else:
                if end_here:
                    here = True
                if c is None or not cons:
                    if b != "right":
                        return ("a token is not matched as it stands", finish(edges, finals, live, text, c, r))
                    continue
            nt = program.step(cons, c)
            if not nt and (kind == "out" or b == "right"):
                continue
            t = (r, c, nt, b, here, False)
            if t not in seen:
                seen[t] = text + c
                work.append(t)
    return None


def finish(edges, finals, live, text, c, q):
    """a complete text beginning like this"""
    if c is None:
        return text
    text += c
    seen, work = {q}, [(q, text)]
    while work:
        q, t = work.pop(0)
        if q in finals:
            return t
        for c, m, r in edges.get(q, []):
            if r in live and r not in seen:
                seen.add(r)
                work.append((r, t + c))
    return text
