"""C04: every optimizer pass, and their chain, keeps what a stream means.

Each pass is a class with a state; the contract of append(x) is a simulation step
    what is emitted  ++  what the new state still holds   means the same as   what the old state held  ++  [x]
from an arbitrary state satisfying the pass's invariant (stated below for each pass), the
constructor establishes the invariant with nothing held, and close() emits what is held
and closes the stream below exactly once.  Induction over the stream does the rest."""
import itertools
import z3
from ..lib import *
from ..tape import *
from .. import conc, desc, hid, sym

LEVEL = "proof"
TRUSTED = ["vf/interp.py (AST semantics of Python, cross-checked against CPython by selftest)",
           "vf/tape.py, vf/hid.py (the HID state machine and the commutation of items it justifies, cross-checked by selftest)", "z3 / cvc5"]
ASSUMPTIONS = ["item values fit their item (32 bits); items are the 27 of HID 1.11",
               "item constructors by their contract (C01), usage lookup and split by theirs (C10)",
               "the lists a pass holds are only changed by that pass"]
RULE = "a case = one item stream run through every pass alone and through the whole optimizer, controls compared one by one; distinct by its JSON text"
QUICK_S, QUICK_N, THOROUGH_S = 14, 1500, 300
REG = {c.__name__: c for c in _opt.Optimizer.registry}
from hrdc.stream.optimizer import (designator_uniq as _du, global_merge as _gm, main_merge as _mm,     # noqa: E402
                                   physical_merge as _pm, range_merge as _rm, usage_page as _up)


# ---------------------------------------------------------------- globals, seen as a table
def gtable(p, name):
    return {t: p.int("%s%d" % (name, t)) for t in range(10)}


def play(p, it, tape, g):
    """Run emitted items on the table g of globals; returns (table, pushes/pops, everything else in order)."""
    g, moves, rest = dict(g), [], []
    for x in tape:
        if isinstance(x, (Block, Maybe)) or x is CLOSE:
            rest.append(x)
            continue
        k, t, v = triple(it, x)
        if k == 1 and t in (10, 11):
            moves.append(t)
        elif k == 1:
            g[t] = v
        else:
            rest.append((x, dict(g)))
    return g, moves, rest


def passed(p, x, rest):
    p.prove("locals and main items are passed on at once, exactly once", len(rest) == 1 and rest[0][0] is x)
    return rest[0][1] if len(rest) == 1 and isinstance(rest[0], tuple) else None


def same_g(p, a, b, but=()):
    p.prove("globals in force are the ones declared", land(*[eqi(a[t], b[t]) for t in range(10) if t not in but]))


# ---------------------------------------------------------------- GlobalMerge
# invariant: globals[t], when it is an item, is a global item t holding the value in force
class GDict(SymDict):
    def __init__(self, base, known=None):
        self.base = base

        def make(it, k):
            if not 0 <= k <= 9:
                return None
            j = it.path.choose(3)
            return None if j == 0 else (None,) if j == 1 else (mkitem(it, (1, k), base[k]),)
        SymDict.__init__(self, make, known)

    def copy(self):
        c = GDict(self.base, self.known)
        c.own = dict(self.own)
        return c


def gdict_ok(p, it, d, g, what):
    if isinstance(d, GDict):
        own, base = d.own, d.base
    elif isinstance(d, dict):
        own, base = {it.to_int(k): (True, v) for k, v in d.items()}, None
    else:
        raise Unsupported("table of another shape")
    cs = []
    for t in range(10):
        ok, v = own.get(t, (None, None))
        if ok is None and base is not None:
            cs.append(True if base[t] is g[t] else eqi(base[t], g[t]))
        elif ok and v is not None:
            k2, t2, v2 = triple(it, v)
            cs.append(land(k2 == 1, t2 == t, eqi(v2, g[t])))
    p.prove(what, land(*cs))


def unit_global(report):
    def init(p, it):
        o = it.call(_gm.GlobalMerge, (Down(),))
        attrs(o, "stream", "stack", "locals", "globals")
        gdict_ok(p, it, o.globals, {t: 0 for t in range(10)}, "init: the values remembered are the ones in force")
        p.prove("init: nothing stacked, nothing emitted", o.stack == [] and o.stream.l == [])
        it.call_method(o, "close")
        p.prove("close: nothing is held", closed(p, o.stream.l) == [])
    run_harness(report, "init", init, items=True)
    for kt in ALL:
        def h(p, it):
            d = Down()
            o = it.call(_gm.GlobalMerge, (d,))
            attrs(o, "stream", "stack", "locals", "globals")
            constant(o, "stream", "locals")
            g = gtable(p, "g")
            o.globals = GDict(g)
            top = gtable(p, "t")
            o.stack, td = stack_state(p, lambda: GDict(top))
            rest = list(o.stack)
            x = mkitem(it, kt, fresh_value(p, kt, keep=True))
            it.call_method(o, "append", (x,))
            g2, moves, others = play(p, it, d.l, g)
            if kt[0] != 1:
                p.prove("locals and main items do not move the stack", moves == [] and o.stack == rest)
                same_g(p, g2, g)
                at = passed(p, x, others)
                if at is not None:
                    same_g(p, at, g)
            elif kt[1] == 10:
                p.prove("push is passed on once", moves == [10] and others == [])
                p.prove("push: one more level", len(o.stack) == len(rest) + 1 and all(a is b for a, b in zip(rest, o.stack)))
                gdict_ok(p, it, o.stack[-1], g, "push: the level saved is the one in force")
                p.prove("push: the level saved is a copy", o.stack[-1] is not o.globals)
                same_g(p, g2, g)
            elif kt[1] == 11:
                p.prove("pop is passed on once", moves == [11] and others == [])
                p.prove("pop: one level less", len(o.stack) == max(0, len(rest) - 1) and all(a is b for a, b in zip(rest, o.stack)))
                g2 = g if td is None else top
            else:
                p.prove("a global item emits nothing else", moves == [] and others == [] and o.stack == rest)
                same_g(p, g2, {**g, kt[1]: it.to_int(x.value)})
            gdict_ok(p, it, o.globals, g2, "the values remembered are the ones in force")
            p.prove("append: not closed", CLOSE not in d.l)
            it.call_method(o, "close")
            closed(p, d.l)
        run_harness(report, "global merge", h, items=True)


def table_ok(it, d, g, keys):
    """d remembers, as numbers, the globals of g named by keys, no more and no less"""
    if not isinstance(d, dict) or set(d) != set(keys) or not all(isinstance(v, (int, SymInt)) for v in d.values()):
        raise Unsupported("table of another shape")
    return land(*[eqi(v, g[it.to_int(k)]) for k, v in d.items()])


# ---------------------------------------------------------------- PhysicalMerge
# invariant: current = bounds declared, emitted = physical bounds in force below
def unit_physical(report):
    C = _pm.PhysicalMerge

    def fill(d, g, it):
        if not isinstance(d, dict):
            raise Unsupported("table of another shape")
        return {k: g[it.to_int(k)] for k in d}

    def ok(p, it, d, g):
        return table_ok(it, d, g, d)

    def phys(p, it, a, b):
        e = lambda g: (ite(land(eqi(g[3], 0), eqi(g[4], 0)), g[1], g[3]), ite(land(eqi(g[3], 0), eqi(g[4], 0)), g[2], g[4]))
        x, y = e(a), e(b)
        p.prove("a data item has the physical range declared", land(eqi(x[0], y[0]), eqi(x[1], y[1])))

    def init(p, it):
        d = Down()
        o = it.call(C, (d,))
        attrs(o, "stream", "current", "emitted", "stack")
        z = {t: 0 for t in range(10)}
        p.prove("init: bounds are the initial ones", land(ok(p, it, o.current, z), ok(p, it, o.emitted, z)))
        p.prove("init: nothing stacked, nothing emitted", o.stack == [] and d.l == [])
        it.call_method(o, "close")
        p.prove("close: nothing is held", closed(p, d.l) == [])
    run_harness(report, "init", init, items=True)
    for kt in ALL:
        def h(p, it):
            d = Down()
            o = it.call(C, (d,))
            attrs(o, "stream", "current", "emitted", "stack")
            constant(o, "stream")
            S = gtable(p, "s")
            O = {**S, 3: p.int("o3"), 4: p.int("o4")}
            c0, e0 = dict(o.current), dict(o.emitted)
            o.current, o.emitted = fill(c0, S, it), fill(e0, O, it)
            tS = gtable(p, "ts")
            tO = {**tS, 3: p.int("to3"), 4: p.int("to4")}
            o.stack, top = stack_state(p, lambda: (fill(c0, tS, it), fill(e0, tO, it)))
            rest = list(o.stack)
            x = mkitem(it, kt, fresh_value(p, kt, keep=True))
            it.call_method(o, "append", (x,))
            O2, moves, others = play(p, it, d.l, O)
            S2 = dict(S)
            if kt[0] != 1:
                p.prove("locals and main items do not move the stack", moves == [] and o.stack == rest)
                at = passed(p, x, others)
                if kt in DATA and at is not None:
                    phys(p, it, at, S)
                    same_g(p, at, S, (3, 4))
            elif kt[1] == 10:
                p.prove("push is passed on once", moves == [10] and others == [] and len(d.l) == 1)
                p.prove("push: one more level", len(o.stack) == len(rest) + 1 and all(a is b for a, b in zip(rest, o.stack)))
                lv = o.stack[-1]
                if not isinstance(lv, tuple) or len(lv) != 2:
                    raise Unsupported("level of another shape")
                p.prove("push: the level saved is the one in force", land(table_ok(it, lv[0], S, c0), table_ok(it, lv[1], O, e0)))
                p.prove("push: the level saved is a copy", lv[0] is not o.current and lv[1] is not o.emitted)
            elif kt[1] == 11:
                p.prove("pop is passed on once", moves == [11] and others == [] and len(d.l) == 1)
                p.prove("pop: one level less", len(o.stack) == max(0, len(rest) - 1) and all(a is b for a, b in zip(rest, o.stack)))
                if top is not None:
                    S2, O2 = tS, tO
            else:
                S2[kt[1]] = it.to_int(x.value)
                p.prove("a global item emits nothing else", moves == [] and others == [] and o.stack == rest)
            same_g(p, O2, S2, (3, 4))
            p.prove("bounds remembered are the ones declared", table_ok(it, o.current, S2, c0))
            p.prove("physical bounds remembered are the ones in force", table_ok(it, o.emitted, O2, e0))
            p.prove("append: not closed", CLOSE not in d.l)
            it.call_method(o, "close")
            closed(p, d.l)
        run_harness(report, "physical merge", h, items=True)


# ---------------------------------------------------------------- RangeMerge (usages, designators, strings)
# invariant: pending = [a main item]? then items without main items; while merging, these hold no
# range item nor delimiter of the family, and its index items are the run minValue..maxValue (none: both None)
def unit_range(cname, lookup, fam):
    def unit(report):
        C = getattr(_rm, cname)
        names = ("stream", "lookup", "min", "max", "merging", "minValue", "maxValue", "pending", "main")
        L = (2, lookup)
        ranged = [(2, lookup + 1), (2, lookup + 2)]

        def value(it, v):
            return mkitem(it, (2, 0), v).value if fam == "u" else v

        def flags(p, it, o, ghost):
            """the state describes what is pending"""
            if any(isinstance(x, Maybe) for x in o.pending):
                raise Unsupported("conditional item")
            p.prove("nothing but the first item held is a main item",
                    all(isinstance(x, Block) or triple(it, x)[0] != 0 for x in o.pending[1:]))
            if not (o.merging is True or o.merging is False):
                raise Unsupported("merging flag of another kind")
            p.prove("both bounds or none", (o.minValue is None) == (o.maxValue is None))
            if not o.merging:
                return
            seg = segments(it, o.pending)[-1]
            for x in o.pending:
                if isinstance(x, Block):
                    bad = [k for k in ranged + [(2, 10)] if has(x, k)]
                else:
                    bad = [k for k in ranged + [(2, 10)] if triple(it, x)[:2] == k]
                p.prove("while merging, no range and no delimiter is held", not bad)
            r = runs(p, seg.c[fam], ghost)
            if r is None:
                p.prove("while merging, the items held are one run", False)
            elif o.minValue is None:
                p.prove("while merging, the items held are the run remembered", r == [])
            else:
                lo, hi = zi(it.to_int(o.minValue)), zi(it.to_int(o.maxValue))
                p.prove("while merging, the items held are the run remembered",
                        len(r) == 1 and mkbool(z3.And(r[0][0] == lo, r[0][1] == hi, lo <= hi, lo / 65536 == hi / 65536)))

        def init(p, it):
            d = Down()
            o = it.call(C, (d,))
            attrs(o, *names)
            p.prove("init: the pass looks after its own items", land(eqi(it.to_int(o.lookup), lookup), eqi(it.to_int(o.min), lookup + 1), eqi(it.to_int(o.max), lookup + 2)))
            p.prove("init: nothing held, nothing emitted", o.pending == [] and d.l == [])
            flags(p, it, o, lambda b, ks: None)
        run_harness(report, "init", init, items=True)

        def state(p, it):
            d = Down()
            o = it.call(C, (d,))
            attrs(o, *names)
            constant(o, "stream", "lookup", "min", "max", "main")
            head = [mkitem(it, MAINS[p.choose(5)], p.int("mv", 0))] if p.choose(2) else []
            o.merging = bool(p.choose(2))
            kind = p.choose(2)
            lo = hi = None
            if kind or not o.merging and p.choose(2):
                lo = p.int("lo", 0, (1 << 32) - 1, keep=True)
                hi = p.int("hi", 0, (1 << 32) - 1, keep=True)
                p.assume(z3.And(lo.e <= hi.e, lo.e / 65536 == hi.e / 65536))
                o.minValue, o.maxValue = value(it, lo), value(it, hi)
            labels = NONMAIN
            merging = o.merging
            if merging:
                labels = [k for k in NONMAIN if k not in ranged + [(2, 10)] and (k != L or lo is not None)]

            def val(it, k):
                if k == L and merging:
                    v = it.path.int("some", 0, (1 << 32) - 1)
                    it.path.assume(z3.And(v.e >= lo.e, v.e <= hi.e))
                    return v
                return fresh_value(it.path, k, "some")
            B = block(p, labels, "held", p.int("n", 1 if o.merging and lo is not None else 0), val)
            o.pending = head + [B]

            def ghost(b, ks):
                if b is not B or not merging:
                    return None
                if L not in ks:
                    return ()
                return (lo.e, hi.e)
            return o, d, list(o.pending), ghost

        def step(kt):
            def h(p, it):
                o, d, held, ghost = state(p, it)
                x = mkitem(it, kt, fresh_value(p, kt, keep=True))
                it.call_method(o, "append", (x,))
                p.prove("append: not closed", CLOSE not in d.l)
                prove_same(p, it, list(d.l) + list(o.pending), held + [x], ghost)
                flags(p, it, o, ghost)
            return h
        for kt in ALL:
            run_harness(report, cname, step(kt), items=True)

        def close(p, it):
            o, d, held, ghost = state(p, it)
            it.call_method(o, "close")
            prove_same(p, it, closed(p, d.l), held, ghost)
        run_harness(report, cname + " close", close, items=True)
    return unit


# ---------------------------------------------------------------- DesignatorUniq
# invariant: pending holds no main item; designatorToFilter is None when pending holds no designator,
# an item when that item is the only designator and is 0, False otherwise
def unit_designator(report):
    C = _du.DesignatorUniq
    names = ("stream", "pending", "designatorToFilter")
    D = [(2, 3), (2, 4), (2, 5)]

    def flags(p, it, o):
        ds = []
        for x in o.pending:
            if isinstance(x, Block):
                ds += [x for k in D if has(x, k)]
            elif triple(it, x)[:2] in D:
                ds.append(x)
        p.prove("no main item is held", all(isinstance(x, Block) or triple(it, x)[0] != 0 for x in o.pending))
        f = o.designatorToFilter
        if f is None:
            p.prove("no candidate: no designator is held", ds == [])
        elif f is not False:
            if not isinstance(f, _item.Item):
                raise Unsupported("candidate of another kind")
            p.prove("the candidate is the only designator held", len(ds) == 1 and ds[0] is f and triple(it, f)[:2] == (2, 3))
            p.prove("the candidate is 0", eqi(it.to_int(f.value), 0))

    def state(p, it):
        d = Down()
        o = it.call(C, (d,))
        attrs(o, *names)
        constant(o, "stream")
        j = p.choose(3)
        nod = [k for k in NONMAIN if k not in D]
        if j == 0:
            o.pending = [block(p, nod, "held")]
        elif j == 1:
            f = mkitem(it, (2, 3), 0)
            o.designatorToFilter = f
            o.pending = [block(p, nod, "before"), f, block(p, nod, "after")]
        else:
            o.designatorToFilter = False
            o.pending = [block(p, NONMAIN, "held")]
        return o, d, list(o.pending)

    def init(p, it):
        d = Down()
        o = it.call(C, (d,))
        attrs(o, *names)
        p.prove("init: nothing held, nothing emitted", o.pending == [] and d.l == [])
        flags(p, it, o)
    run_harness(report, "init", init, items=True)
    for kt in ALL:
        def h(p, it):
            o, d, held = state(p, it)
            x = mkitem(it, kt, fresh_value(p, kt, keep=True))
            it.call_method(o, "append", (x,))
            p.prove("append: not closed", CLOSE not in d.l)
            prove_same(p, it, list(d.l) + list(o.pending), held + [x], zero=True)
            flags(p, it, o)
        run_harness(report, "designator", h, items=True)

    def close(p, it):
        o, d, held = state(p, it)
        it.call_method(o, "close")
        prove_same(p, it, closed(p, d.l), held, zero=True)
    run_harness(report, "close", close, items=True)


# ---------------------------------------------------------------- UsagePage
# invariant: page = page in force below, declared = page declared; usages = the usage items and delimiters since the
# last main item, none of them below yet; usagesPage is None when there are no usages, a page when all usages name that page
def unit_usage(report):
    C = _up.UsagePage
    names = ("stream", "page", "declared", "stack", "usages", "usagesPage")
    US = [(2, 0), (2, 1), (2, 2)]

    def complete(v, page):
        return z3.If(zi(v) / 65536 != 0, zi(v), zi(page) * 65536 + zi(v))

    def state(p, it):
        d = Down()
        o = it.call(C, (d,))
        attrs(o, *names)
        constant(o, "stream")
        S = gtable(p, "s")
        O = {**S, 0: p.int("o0", 0, 65535)}
        p.assume(z3.And(S[0].e >= 0, S[0].e < 65536))
        o.page, o.declared = O[0], (named(p, S[0]) if p.choose(2) else S[0])
        tS = gtable(p, "ts")
        o.stack, top = stack_state(p, lambda: named(p, tS[0]) if p.choose(2) else tS[0])
        j = p.choose(3)
        page = None
        if j == 0:
            labels = [(2, 10)]
        else:
            labels = US + [(2, 10)]
            page = 0 if j == 1 else p.int("page", 1, 65535, keep=True)
            o.usagesPage = 0 if j == 1 else named(p, page)

        def val(it, k):
            v = fresh_value(it.path, k, "some")
            if j == 2 and k in US:
                it.path.assume(v.e / 65536 == page.e)
            return v
        B = block(p, labels, "usages", p.int("n", 0 if j == 0 else 1), val)
        o.usages = [B]
        return o, d, S, O, tS, top, B, page

    def flags(p, it, o, B, page, S2, O2):
        p.prove("page remembered is the one in force", eqi(it.to_int(o.page), O2[0]))
        p.prove("page declared is remembered", eqi(it.to_int(o.declared), S2[0]))
        us = [x for x in o.usages if not isinstance(x, Block) and triple(it, x)[:2] in US]
        inblock = page is not None and any(x is B for x in o.usages)
        if o.usagesPage is None:
            p.prove("no page only when there are no usages", not us and not inblock)
        else:
            n = it.to_int(o.usagesPage)
            c = [mkbool(zi(it.to_int(x.value)) / 65536 == zi(n)) for x in us]
            if inblock:
                c.append(False if isinstance(page, int) else eqi(page, n))
            p.prove("a page only when all usages name it", lor(eqi(n, 0), land(*c)))

    def finish(p, it, tape, S, O, B):
        """the tape up to a main item: usages declared are those of B"""
        g, moves, rest = play(p, it, tape, O)
        p.prove("usages come out with nothing else", moves == [] and len(rest) <= 1 and (rest == [] or isinstance(rest[0], Block)))
        if rest and not isinstance(rest[0], Block):
            return g
        if not rest:
            p.prove("every usage comes out", mkbool(zi(B.n) == 0))
            return g
        x = rest[0]
        if x is B:
            if (2, 0) in B.labels:
                for label, make in B.cases(it):
                    if label in US:
                        v = it.to_int(make(it, 0).value)
                        p.prove("a usage keeps its meaning under the page in force", mkbool(complete(v, g[0]) == complete(v, S[0])))
            return g
        if not isinstance(x, Derived) or x.src is not B:
            raise Unsupported("usages of another shape")
        seen = set()
        for label, elem, pc, out in x.results:
            seen.add(label)
            p.prove("every usage and delimiter comes out once", lor(lnot(mkbool(pc)), len(out) == 1))
            if len(out) != 1:
                continue
            a, b = triple(it, elem), triple(it, out[0])
            p.prove("a usage stays the same kind of item", a[:2] == b[:2])
            if label not in US:
                p.prove("a delimiter keeps its value", lor(lnot(mkbool(pc)), eqi(a[2], b[2])))
                continue
            p.prove("a usage keeps its meaning under the page in force",
                    lor(lnot(mkbool(pc)), mkbool(complete(b[2], g[0]) == complete(a[2], S[0]))))
            p.prove("usages rewritten all rely on the page", lor(lnot(mkbool(pc)), mkbool(z3.And(zi(b[2]) >= 0, zi(b[2]) < 65536))))
        p.prove("every kind of usage item comes out", seen >= set(B.labels))
        return g

    def init(p, it):
        d = Down()
        o = it.call(C, (d,))
        attrs(o, *names)
        p.prove("init: nothing held, nothing emitted", o.usages == [] and d.l == [] and o.stack == [])
        z = {t: 0 for t in range(10)}
        flags(p, it, o, None, None, z, z)
    run_harness(report, "init", init, items=True)
    for kt in ALL:
        def h(p, it):
            o, d, S, O, tS, top, B, page = state(p, it)
            rest0 = list(o.stack)
            v = p.int("value", 0, 65535, keep=True) if kt == (1, 0) else fresh_value(p, kt, keep=True)
            x = mkitem(it, kt, v)
            it.call_method(o, "append", (x,))
            p.prove("append: not closed", CLOSE not in d.l)
            S2, O2 = dict(S), dict(O)
            if kt[0] == 0:
                p.prove("a main item comes out last, once", len(d.l) >= 1 and d.l[-1] is x)
                O2 = finish(p, it, d.l[:-1], S, O, B)
                p.prove("no usage is held after a main item", o.usages == [])
                same_g(p, O2, S, (0,))
                p.prove("the stack is left alone", o.stack == rest0)
            else:
                O2, moves, others = play(p, it, d.l, O)
                if kt in US + [(2, 10)]:
                    p.prove("usages are held, in order", len(o.usages) == 2 and o.usages[0] is B and o.usages[1] is x and d.l == [])
                else:
                    p.prove("usages held are left alone", len(o.usages) == 1 and o.usages[0] is B)
                if kt == (1, 10):
                    p.prove("push is passed on once, last", moves == [10] and others == [] and triple(it, d.l[-1])[:2] == (1, 10))
                    p.prove("push: one more level", len(o.stack) == len(rest0) + 1 and all(a is b for a, b in zip(rest0, o.stack)))
                    p.prove("push: the page saved below is the one declared", land(eqi(it.to_int(o.stack[-1]), S[0]), eqi(O2[0], S[0])))
                elif kt == (1, 11):
                    p.prove("pop is passed on once, alone", moves == [11] and len(d.l) == 1)
                    p.prove("pop: one level less", len(o.stack) == max(0, len(rest0) - 1) and all(a is b for a, b in zip(rest0, o.stack)))
                    if top is not None:
                        S2, O2 = tS, tS
                elif kt[0] == 1:
                    S2[kt[1]] = it.to_int(x.value)
                    p.prove("a global item emits nothing else", moves == [] and others == [])
                    p.prove("the stack is left alone", o.stack == rest0)
                elif kt not in US + [(2, 10)]:
                    p.prove("other locals are passed on at once, alone", len(d.l) == 1 and d.l[0] is x)
                same_g(p, O2, S2, (0,))
            flags(p, it, o, B, page, S2, O2)
        run_harness(report, "usage page", h, items=True)

    def close(p, it):
        o, d, S, O, tS, top, B, page = state(p, it)
        it.call_method(o, "close")
        t = closed(p, d.l)
        p.prove("close: no main item appears", all(isinstance(x, Block) or triple(it, x)[0] != 0 for x in t))
    run_harness(report, "close", close, items=True)


# ---------------------------------------------------------------- MainMerge
# invariant.  Watched globals: props[t] = value in force on input; afterCount = report count in force on input.
# afterLocals = tags of the locals since the last main item (one of each), None = anything.
# Either nothing is to be merged: mainItems = [], beforeCount = 0, beforeMain ++ afterMain = items since the last data item;
# or mainItems = k equal data items of count 1 = beforeCount, with the same one-of-each locals (none at all for arrays), no
# push/pop and no change of a watched global between them; beforeMain = the other items up to the last of them, afterMain = after it.
# The stream below may have any report count: one is emitted with every data item.
LT = {0: _item.LocalItem.Usage, 3: _item.LocalItem.DesignatorIndex, 7: _item.LocalItem.StringIndex}
TUPLES = [t for n in range(4) for t in itertools.permutations((0, 3, 7), n)]
RC = (1, 9)


class Unread:
    """State that must not matter for the item at hand: looking at it leaves the verified subset."""
    _vf_class = True

    def _no(self, *a):
        raise Unsupported("state looked at where it should not matter")
    __eq__ = __ne__ = __len__ = __iter__ = __contains__ = __bool__ = __getitem__ = __add__ = __iadd__ = _no
    __hash__ = None


def tags(it, t):
    """local tags remembered, sorted; None when anything may be there"""
    return None if t is None else sorted(int(it.to_int(x)) for x in t)


class MainState:
    def __init__(self, p, it, case, locals_, before, kinds, stack):
        """locals_/before: tags, None, or Unread; kinds: data items the merged ones may be"""
        self.p, self.it, self.case, self.locals = p, it, case, locals_
        self.d = d = Down()
        self.o = o = it.call(_mm.MainMerge, (d,))
        attrs(o, "stream", "beforeMain", "mainItems", "afterMain", "beforeCount", "afterCount", "beforeLocals", "afterLocals", "stack", "props")
        constant(o, "stream")
        self.g = gtable(p, "g")
        keys = {it.to_int(k): k for k in o.props}
        self.keys = set(o.props)
        o.props = {k: self.g[t] for t, k in keys.items()}
        p.assume(z3.And(self.g[9].e >= 0, self.g[9].e < 1 << 32))
        self.count = o.afterCount = self.g[9]
        o.afterLocals = locals_ if locals_ is None or isinstance(locals_, Unread) else tuple(LT[t] for t in locals_)
        self.tg = gtable(p, "t")
        if stack:
            o.stack, self.top = stack_state(p, lambda: ({k: self.tg[t] for t, k in keys.items()}, self.tg[9]))
        else:
            o.stack = Unread()
        self.stack0 = o.stack
        self.levels0 = list(o.stack) if stack else None
        self.AB = block(p, [k for k in NONMAIN if case == "free" or k not in ((1, 10), (1, 11))], "since the last data item")
        self.MB = block(p, [k for k in ALL if k not in DATA], "before")
        o.afterMain, o.beforeMain = [self.AB], [self.MB]
        self.k, self.m, self.L = 0, None, None
        if case == "merging":
            self.k = p.int("merged", 1)
            mk = kinds[p.choose(len(kinds))]
            self.m = mkitem(it, mk, p.int("flags", 0, (1 << 32) - 1, keep=True))
            same = lambda it, i: mkitem(it, mk, it.to_int(self.m.value))
            o.mainItems = [self.m, Block(mkint(self.k.e - 1), [("same", same)], None, "merged items")]
            o.beforeCount = self.k
            self.L = o.beforeLocals = before

    def tokens(self, seq):
        out = []
        for y in seq:
            if isinstance(y, Maybe) or y is CLOSE:
                raise Unsupported("conditional item")
            if isinstance(y, Block):
                out.append(("block",) + root(y))
            else:
                out.append(("item", y, triple(self.it, y)))
        return out

    def block_ok(self, tok, blk):
        return tok[0] == "block" and tok[1] is blk and all(k == RC for k in tok[2])

    def data_ok(self, toks, i, n, m):
        """toks[i], toks[i + 1] are a report count of n and the data item m"""
        if i < 0 or i + 1 >= len(toks) or toks[i][0] != "item" or toks[i + 1][0] != "item":
            return False
        a, b, c = toks[i][2], toks[i + 1][2], triple(self.it, m)
        return land(a[:2] == RC, eqi(a[2], n), b[:2] == c[:2], eqi(b[2], c[2]))

    def same_order(self, got, want):
        """the same items in the same order, report counts aside"""
        got = [t for t in got if not (t[0] == "item" and t[2][:2] == RC)]
        want = [t for t in self.tokens(want) if not (t[0] == "item" and t[2][:2] == RC)]
        cs = [len(got) == len(want)]
        for a, b in zip(got, want):
            if b[0] == "block":
                cs.append(self.block_ok(a, b[1]))
            else:
                cs.append(a[0] == "item" and a[2][:2] == b[2][:2] and eqi(a[2][2], b[2][2]))
        self.p.prove("every other item comes out or is held, once, in order", land(*cs))

    def released(self, toks):
        """when merged items are no longer held: they came out first"""
        self.p.prove("merged items come out after the items before them", len(toks) >= 1 and self.block_ok(toks[0], self.MB))
        self.p.prove("merged items come out once, with their number", self.data_ok(toks, 1, self.k, self.m))
        return toks[3:]

    def merging_still(self):
        return self.case == "merging" and len(self.o.mainItems) > 0 and self.o.mainItems[0] is self.m

    def other(self, x):
        """obligations of append(x) for a local, a global, a collection or its end"""
        p, it, o = self.p, self.it, self.o
        k, t, v = triple(it, x)
        toks = self.tokens(self.d.l)
        if self.merging_still():
            p.prove("merging goes on with the same items", len(o.mainItems) == 2 and eqi(it.to_int(o.beforeCount), self.k) and o.beforeLocals is self.L)
            p.prove("merging goes on only over locals and unchanged globals", k == 2 or (k == 1 and (t == 9 or t < 9 and eqi(v, self.g[t]))))
            p.prove("items before merged ones are left alone", len(o.beforeMain) == 1 and o.beforeMain[0] is self.MB)
            p.prove("nothing comes out while merging", toks == [])
            self.same_order(self.tokens(o.afterMain), [self.AB, x])
        else:
            p.prove("no count is kept for items that came out", o.mainItems == [] and eqi(it.to_int(o.beforeCount), 0))
            if self.case == "merging":
                self.same_order(self.released(toks) + self.tokens(o.beforeMain + o.afterMain), [self.AB, x])
            else:
                self.same_order(toks + self.tokens(o.beforeMain + o.afterMain), [self.MB, self.AB, x])
        g2 = dict(self.g)
        if k == 1 and t < 10:
            g2[t] = v
        if k == 1 and t == 11 and self.top is not None:
            g2 = self.tg
        self.remembered(g2)
        if k == 1 and t == 10:
            p.prove("push: one more level", len(o.stack) == len(self.levels0) + 1 and all(a is b for a, b in zip(self.levels0, o.stack)))
            lv = o.stack[-1]
            if not isinstance(lv, tuple) or len(lv) != 2 or not isinstance(lv[0], dict):
                raise Unsupported("level of another shape")
            p.prove("push: the level saved is the one in force", land(eqi(it.to_int(lv[1]), self.count), self.props_ok(lv[0], self.g)))
            p.prove("push: the level saved is a copy", lv[0] is not o.props)
        elif k == 1 and t == 11:
            p.prove("pop: one level less", len(o.stack) == max(0, len(self.levels0) - 1) and all(a is b for a, b in zip(self.levels0, o.stack)))
        else:
            p.prove("the stack is left alone", o.stack is self.stack0)
        if k == 2:
            want = None if self.locals is None or t not in LT or t in self.locals else sorted(self.locals + (t,))
            p.prove("locals are remembered by tag while there is one of each", o.afterLocals is None or tags(it, o.afterLocals) == want)
        elif k == 1:
            p.prove("globals do not change the locals remembered", o.afterLocals is None or o.afterLocals is self.locals)
        else:
            p.prove("no locals after a main item", not isinstance(o.afterLocals, Unread) and (o.afterLocals is None or tags(it, o.afterLocals) == []))

    def props_ok(self, props, g):
        return table_ok(self.it, props, g, self.keys)

    def remembered(self, g):
        self.p.prove("globals remembered are the ones in force", self.props_ok(self.o.props, g))
        self.p.prove("count remembered is the one in force", eqi(self.it.to_int(self.o.afterCount), g[9]))

    def data(self, x):
        p, it, o = self.p, self.it, self.o
        toks = self.tokens(self.d.l)
        v = it.to_int(x.value)
        still = self.merging_still()
        if any(y is x for y in o.mainItems):
            p.prove("a data item held has a count of 1", eqi(self.count, 1))
            p.prove("a data item held has one of each local, or none", self.locals is not None)
            p.prove("an array held has no locals", self.locals == () or mkbool((zi(v) / 2) % 2 == 1))
            p.prove("locals of a data item held are remembered", self.locals is not None and tags(it, o.beforeLocals) == sorted(self.locals))
            if still:
                p.prove("items merged are added at the end", len(o.mainItems) == 3 and o.mainItems[2] is x)
                self.mergeable(x)
                p.prove("merged items are counted", eqi(it.to_int(o.beforeCount), mkint(self.k.e + 1)))
                p.prove("nothing comes out while merging", toks == [])
                self.same_order(self.tokens(o.beforeMain), [self.MB, self.AB])
            else:
                p.prove("a first data item is held alone, and counted", len(o.mainItems) == 1 and eqi(it.to_int(o.beforeCount), 1))
                if self.case == "merging":
                    self.same_order(self.released(toks) + self.tokens(o.beforeMain), [self.AB])
                else:
                    self.same_order(toks + self.tokens(o.beforeMain), [self.MB, self.AB])
        else:
            p.prove("a data item is held or comes out", o.mainItems == [] and not still)
            p.prove("no count is kept for items that came out", eqi(it.to_int(o.beforeCount), 0))
            total = mkint(self.k.e + zi(self.count)) if self.case == "merging" and len(toks) > 1 and toks[1][0] == "block" else self.count
            p.prove("a data item comes out once, with its count, last", self.data_ok(toks, len(toks) - 2, total, x))
            p.prove("nothing is held after items came out", o.beforeMain == [])
            if self.case == "merging" and len(toks) > 1 and toks[1][0] == "block":
                # merged with the ones held: a last item may have any count, its locals are repeated
                self.mergeable(x)
                self.same_order(toks[:-2], [self.MB, self.AB])
                return self.after_data()
            if self.case == "merging":
                self.same_order(self.released(toks)[:-2], [self.AB])
            else:
                self.same_order(toks[:-2], [self.MB, self.AB])
        self.after_data()

    def mergeable(self, x):
        p, it = self.p, self.it
        p.prove("items merged are equal", triple(it, x)[:2] == triple(it, self.m)[:2] and eqi(it.to_int(x.value), it.to_int(self.m.value)))
        p.prove("items merged have the same locals", self.locals is not None and sorted(self.locals) == sorted(self.L))
        p.prove("arrays are merged only without locals", self.locals == () or mkbool((zi(it.to_int(x.value)) / 2) % 2 == 1))

    def after_data(self):
        p, it, o = self.p, self.it, self.o
        p.prove("nothing is held after a data item", o.afterMain == [])
        p.prove("no locals after a main item", o.afterLocals is None or tags(it, o.afterLocals) == [])
        p.prove("the stack is left alone", o.stack is self.stack0)
        self.remembered(self.g)


def unit_main(report):
    def init(p, it):
        d = Down()
        o = it.call(_mm.MainMerge, (d,))
        p.prove("init: nothing held, nothing emitted", o.beforeMain == [] and o.mainItems == [] and o.afterMain == [] and o.stack == [] and d.l == [])
        p.prove("init: no count, no locals", eqi(it.to_int(o.beforeCount), 0) and o.afterLocals == ())
        p.prove("init: globals remembered are the initial ones", land(*[eqi(it.to_int(v), 0) for v in o.props.values()]) and eqi(it.to_int(o.afterCount), 0))
    run_harness(report, "init", init, items=True)
    for kt in ALL:
        if kt in DATA or kt[0] == 2:
            continue
        for case in ("free", "merging"):
            def h(p, it):
                s = MainState(p, it, case, Unread(), Unread(), DATA, kt in ((1, 10), (1, 11)))
                x = mkitem(it, kt, fresh_value(p, kt, keep=True))
                it.call_method(s.o, "append", (x,))
                p.prove("append: not closed", CLOSE not in s.d.l)
                s.other(x)
            run_harness(report, "main merge", h, items=True)
    for case in ("free", "merging"):
        def close(p, it):
            s = MainState(p, it, case, Unread(), Unread(), DATA, False)
            it.call_method(s.o, "close")
            toks = s.tokens(closed(p, s.d.l))
            if case == "merging":
                s.same_order(s.released(toks), [s.AB])
            else:
                s.same_order(toks, [s.MB, s.AB])
        run_harness(report, "main merge close", close, items=True)


def unit_main_locals(report):
    for case in ("free", "merging"):
        for kt in [k for k in NONMAIN if k[0] == 2]:
            for locals_ in [None] + TUPLES:
                def h(p, it):
                    s = MainState(p, it, case, locals_, Unread(), DATA[:1], False)
                    x = mkitem(it, kt, fresh_value(p, kt, keep=True))
                    it.call_method(s.o, "append", (x,))
                    p.prove("append: not closed", CLOSE not in s.d.l)
                    s.other(x)
                run_harness(report, "main merge", h, items=True)


def unit_main_data(locals_):
    def unit(report):
        for kt in DATA:
            for case in ("free", "merging"):
                def h(p, it, eager=False):
                    s = MainState(p, it, case, locals_, Unread(), DATA, False)
                    x = mkitem(it, kt, p.int("value", 0, (1 << 32) - 1, keep=True))
                    if case == "merging":
                        # the locals of the items held can only matter for an item equal to them; if they are looked at all the same: any
                        if eager or triple(it, s.m)[:2] == kt and p.fork(zi(it.to_int(x.value)) == zi(it.to_int(s.m.value))) and locals_ is not None:
                            s.L = TUPLES[p.choose(len(TUPLES))]
                            s.o.beforeLocals = tuple(LT[t] for t in s.L)
                            if s.L:
                                p.assume((zi(it.to_int(s.m.value)) / 2) % 2 == 1)        # arrays are merged only without locals
                    it.call_method(s.o, "append", (x,))
                    p.prove("append: not closed", CLOSE not in s.d.l)
                    s.data(x)
                try:
                    run_harness(report, "main merge", h, items=True)
                except Unsupported as e:
                    if "should not matter" not in str(e) or case != "merging":
                        raise
                    run_harness(report, "main merge", lambda p, it: h(p, it, True), items=True)
    return unit


# ---------------------------------------------------------------- the chain
def unit_chain(report):
    def h(p, it):
        d = Down()
        lo, hi = p.int("min"), p.int("max")
        k = p.choose(3)
        o = it.call(_opt.Optimizer.new, [(d,), (d, lo, hi), (d, lo)][k])
        seen = 0
        while o is not d:
            ok = type(o) in _opt.Optimizer.registry
            p.prove("the chain is made of passes", ok)
            if not ok or seen > 100:
                return
            seen += 1
            o = o.stream
        p.prove("the chain ends at the stream given, untouched", d.l == [])
    run_harness(report, "chain", h)
    known = {"GlobalMerge", "PhysicalMerge", "StringMerge", "DesignatorMerge", "UsageMerge", "DesignatorUniq", "UsagePage", "MainMerge"}
    if set(REG) - known:
        raise Unsupported("passes without a contract: %s" % ", ".join(sorted(set(REG) - known)))


UNITS = [("global merge", unit_global), ("physical merge", unit_physical), ("usage merge", unit_range("UsageMerge", 0, "u")),
         ("designator merge", unit_range("DesignatorMerge", 3, "d")), ("string merge", unit_range("StringMerge", 7, "s")),
         ("designator uniq", unit_designator), ("usage page", unit_usage), ("main merge", unit_main), ("main merge locals", unit_main_locals),
         ("chain", unit_chain)] + [("main merge data %s" % (l,), unit_main_data(l)) for l in [None] + TUPLES]


# ---------------------------------------------------------------- run-time check
def one(name, seq, share=False):
    s = conc.Sink()
    if isinstance(name, list):
        o = _opt.Optimizer.new(s, *name)
    else:
        o = REG[name](s) if name else _opt.Optimizer.new(s)
    made = {}
    for t in seq:
        t = tuple(t)
        o.append(made.setdefault(t, conc.mk(t)) if share else conc.mk(t))
    o.close()
    if not s.ok():
        return None, "closed %d times%s" % (s.closed, ", items after close" if s.late else "")
    return s.triples(), None


def check(inp):
    seq = [tuple(t) for t in inp["items"]]
    try:
        want = hid.events(seq)
    except hid.TooBig:
        return "skip"
    for name in inp.get("passes") or [""] + sorted(REG) + [[15, 100], [0, 45]]:
        if isinstance(name, str) and name and name not in REG:
            continue
        for share in (False, True):
            got, err = one(name, seq, share)
            if err is None:
                try:
                    ev = hid.events(got)
                except hid.TooBig:
                    return "skip"
                if ev != want:
                    i = next((i for i, (a, b) in enumerate(zip(ev, want)) if a != b), min(len(ev), len(want)))
                    err = "event %d: %s instead of %s" % (i, ev[i] if i < len(ev) else None, want[i] if i < len(want) else None)
            if err:
                return "%s: %s" % (name or "whole optimizer", err)
    return None


def smaller(inp):
    s = inp["items"]
    for n in (8, 4, 2, 1):
        for i in range(0, len(s), n):
            yield dict(inp, items=s[:i] + s[i + n:])


VALS = {(1, 0): [1, 9, 0, 12], (1, 1): [0, 1, -1], (1, 2): [0, 1, 7], (1, 3): [0, 1], (1, 4): [0, 1, 7], (1, 5): [0, 1, -1], (1, 6): [0, 17],
        (1, 7): [1, 8], (1, 8): [1, 2, 0], (1, 9): [0, 1, 1, 1, 2, 3], (1, 10): [0], (1, 11): [0],
        (2, 0): [1, 2, 3, 4, 0x90001, 0x90002, 0x90003, 0x10030, 0x10031, 0x1ffff, 0x20000, 0], (2, 1): [1, 0x90001], (2, 2): [2, 3, 0x90003],
        (2, 3): [0, 0, 1, 2, 3], (2, 4): [1, 0], (2, 5): [2, 3], (2, 7): [0, 1, 2, 3], (2, 8): [1], (2, 9): [2], (2, 10): [0, 1]}
WEIGHT = {(1, 10): .5, (1, 11): .5, (2, 10): .1, (2, 1): .3, (2, 2): .3, (2, 4): .15, (2, 5): .15, (2, 8): .15, (2, 9): .15, (2, 0): 4, (1, 9): 2}
KEYS = list(VALS)


def value(r, k, hints, odd):
    if k in conc.NOVALUE:
        return 0
    if r.random() < odd:
        v = r.choice([r.choice(conc.MINED), r.choice(hints)[1] if hints else 5, 1 << r.randrange(32), (1 << r.randrange(32)) - 1, r.randrange(300)])
        if k == (1, 9):
            v = abs(v) % 40
        if conc.ITEMS[k][1]:
            return max(-(1 << 31), min((1 << 31) - 1, v if r.random() < .6 else -v))
        return abs(v) & 0xffffffff if k != (1, 0) else abs(v) & 0xffff
    return r.choice(VALS[k])


DENSE = [(1, 9, 1), (1, 9, 2), (1, 9, 0), (2, 0, 1), (2, 0, 2), (2, 1, 1), (2, 2, 2), (2, 3, 0), (2, 3, 1), (2, 4, 0), (2, 5, 0), (1, 10, 0), (1, 10, 0), (1, 11, 0), (1, 11, 0),
         (1, 0, 1), (1, 1, 0), (1, 1, -1), (1, 2, 0), (1, 2, 5), (1, 3, 0), (1, 3, -1), (1, 4, 0), (1, 4, 5), (0, 8, 0), (0, 8, 3), (0, 9, 2), (0, 10, 1), (0, 12, 0)]


def gen(r, hints):
    m = r.random()
    if m < .15:
        try:
            return {"items": [list(t) for t in conc_compile(desc.gen_tree(r, hints))]}
        except Exception:       # noqa: BLE001
            pass
    if m < .4:                  # few kinds of items, few values: everything meets everything
        few = r.sample(DENSE, r.randrange(2, 9)) + [(0, 8, 2)] * r.randrange(1, 4)
        return {"items": [list(r.choice(few)) for _ in range(r.randrange(2, 11))] + [[0, 8, 2]]}
    out = [] if r.random() < .3 else [(1, 9, 1)]
    odd = r.choice([0, 0, 0, .1, .5])
    keys = KEYS
    if r.random() < .6:         # few kinds of items: long runs of similar data items
        keys = r.sample(KEYS, r.randrange(1, 6)) + [(2, 0)]
    ws = [WEIGHT.get(k, 1) for k in keys]
    flags = r.choice([[0, 2, 2, 2, 3, 1], [2], [2, 2, 6], [0], [0, 2, r.randrange(512)]])
    ways = r.choice([[8, 8, 8, 8, 9, 11, 10, 12], [8], [8, 8, 8, 11, 10]])
    run = None
    for _ in range(r.randrange(1, r.choice([4, 8, 16]))):
        if r.random() < .5:
            u = r.choice([1, 0x90001, 0x10030, 0xfffe, 0x9fffe])
            for i in range(r.randrange(0, 5)):
                out.append((2, r.choice([0, 0, 0, 3, 7]), u + i if r.random() < .8 else u))
        for _ in range(r.randrange(0, 4)):
            k = r.choices(keys, ws)[0]
            out.append((*k, value(r, k, hints, odd)))
        t = r.choice(ways)
        out.append((0, t, 0 if t == 12 else r.choice([0, 1, 4]) if t == 10 else r.choice(flags)))
    for k in keys[:r.randrange(0, 3)]:
        out.append((*k, value(r, k, hints, odd)))
    if r.random() < .4:
        for _ in range(r.randrange(1, 3)):
            i = r.randrange(len(out) + 1)
            j = r.randrange(i, len(out) + 1)
            out[j:j] = [(1, 11, 0)]
            out[i:i] = [(1, 10, 0)]
    return {"items": [list(t) for t in out]}


def conc_compile(t):
    return [hid.triple(i) for i in desc.compile_(desc.build(t))]


def fixed(hints):
    small = [(1, 9, 1), (1, 9, 2), (2, 0, 1), (2, 0, 2), (2, 0, 0x90001), (2, 3, 0), (2, 3, 1), (2, 7, 1), (1, 10, 0), (1, 11, 0), (1, 0, 1), (1, 0, 9), (1, 4, 7), (1, 2, 7)]
    end = [(0, 8, 2), (0, 8, 0), (0, 10, 1)]
    for b in range(256):        # bounds, some of them left out
        v = [(b >> 2 * k) & 3 for k in range(4)]
        yield {"items": [[1, 9, 1], [1, 7, 8]] + [[1, 1 + k, (None, 0, 5, -1)[v[k]]] for k in range(4) if v[k]] + [[2, 0, 1], [0, 8, 2]]}
    for a in small:
        for b in small:
            for c in end:
                yield {"items": [list(t) for t in [(1, 9, 1), a, c, b, c, a, b, (0, 8, 2), (2, 0, 3), (0, 8, 2)]]}
    for t in range(0, 12):
        for v in sorted({0, 1, 2, 127, 128, 255, 256, 65535, 65536, 1 << 30} | set(conc.SMALL_MINED[:40])):
            if t in (10, 11):
                v = 0
            if t == 0:
                v &= 0xffff
            if t == 9:
                v %= 40
            yield {"items": [list(x) for x in [(1, 9, 1), (2, 0, 1), (0, 8, 2), (1, t, v), (2, 0, 2), (0, 8, 2), (1, t, 0), (2, 0, 3), (0, 8, 2), (1, t, v), (2, 0, 0x90004), (0, 8, 2)]]}
