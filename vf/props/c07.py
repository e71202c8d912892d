"""C07: decompiling and compiling again."""
import z3
from ..lib import *
from ..tape import mkitem, fresh_value
from ..exstate import *
from ..exstate import X
from .. import conc, hid, dec

LEVEL = "proof"
TRUSTED = ["vf/interp.py (AST semantics of Python, cross-checked against CPython by selftest)", "vf/hid.py (the HID state machine)", "z3 / cvc5",
           "composition: the extractor's state equals the HID machine's after every item (units start, locals, globals, collections), every data item becomes values that describe its controls at its position "
           "(units data), values are filed under their report (C08) and compiling values declares what they describe (C05) where alignment puts them (C06)"]
ASSUMPTIONS = ["item constructors by their contract (C01), Usage.split, Usage.lookup and UsageRange.from_array by theirs (C10)",
               "well-formed: balanced collections with at most one usage each, data items inside collections, logical minimum at most maximum, report ids all 0 or all 1..255, flags of nine bits, complete ranges within one page",
               "the physical range, unit and exponent of named arrays and constants carry no meaning; of a collection only kind and usage are kept",
               "of descriptors that run into known findings everything is compared but what these lose: KF1 the usages, designators or strings an array has several of, KF3 the kind of a named array's collection, "
               "KF4 the place of collections and KF5 the usages of a set of alternatives (these two: run-time checks only)"]
RULE = "a case = one descriptor decompiled and compiled again by the real code, both sides read by the HID state machine; distinct by its JSON text"
QUICK_S, QUICK_N, THOROUGH_S = 12, 1500, 240
WAYS = {8: "Input", 9: "Output", 11: "Feature"}


# ------------------------------------------------------------------ state
def unit_start(report):
    def h(p, it):
        x = it.call(X, ())
        if set(x.__dict__) != ATTRS:
            raise Unsupported("extractor state of another shape")
        p.prove("start: every global is 0", all(x.globals.get(t, 0) == 0 for t in range(10)))
        p.prove("start: no locals, nothing saved, nothing declared, outside any collection",
                x.usages == [] and x.designators == [] and x.strings == [] and x.globalsStack == [] and x.stack == [] and x.offsets == {}
                and all(v is None for v in x.locals.values()) and type(x.currentLevel) is _d.TopLevel and x.currentLevel.members == [] and x.namedArrayLevels == [])
    run_harness(report, "start", h, items=True)
    registry_nary(report)


def unit_locals(tag):
    f, k = hid.FAMILY[tag]

    def unit(report):
        def h(p, it):
            contracts(it)
            st = State(p, it, small=True)
            x = st.x
            pend = {}
            for ff, (a, b) in PEND.items():
                c = p.choose(3)         # nothing, a minimum or a maximum is waiting
                if c:
                    t = (a, b)[c - 1]
                    v = pend[t] = p.int("pending", 0, (1 << 32) - 1, keep=True)
                    x.locals[t] = abstract_usage(v) if ff == "u" else v
            v = fresh_value(p, (2, tag), keep=True)
            st.send((2, tag), v)
            for ff, name in LISTS:
                lst = getattr(x, name)
                old = len(lst) >= 1 and lst[0] is st.blk[ff]
                p.prove("%s: what was given before stays, in order" % name, old)
                if not old:
                    return
                new = lst[1:]
                a, b = PEND[ff]
                want = dict((t, pend.get(t)) for t in (a, b))
                if ff != f:
                    p.prove("%s: another item adds nothing" % name, new == [])
                elif k == "i":
                    p.prove("%s: the item adds its value" % name, len(new) == 1 and not has_block(new) and eqi(it.to_int(new[0]), v))
                else:
                    other = b if tag == a else a
                    if other in pend:
                        lo, hi = (v, pend[b]) if tag == a else (pend[a], v)
                        if new == []:
                            p.prove("%s: a range that completes is not lost" % name, mkbool(zi(hi) < zi(lo)))
                        else:
                            if len(new) != 1 or not isinstance(new[0], Block) or new[0].n is None:
                                raise Unsupported("range expanded another way")
                            i = p.int("i", 0)
                            p.assume(i.e <= zi(hi) - zi(lo))
                            p.prove("%s: a range that completes adds one entry per number" % name,
                                    mkbool(zi(new[0].n) == z3.If(zi(hi) >= zi(lo), zi(hi) - zi(lo) + 1, 0)))
                            if isinstance(new[0], Derived) and new[0]._get is None:
                                src = new[0].src
                                for label, elem, pc, out in new[0].results:
                                    p.prove("%s: a range adds its numbers, in order" % name,
                                            len(out) == 1 and mkbool(z3.Implies(pc, zi(it.to_int(out[0])) - zi(lo) == zi(it.to_int(elem)) - zi(it.to_int(src.get(it, 0))))))
                            else:
                                p.prove("%s: a range adds its numbers, in order" % name, eqi(it.to_int(new[0].get(it, i)), mkint(zi(lo) + i.e)))
                        want = {a: None, b: None}
                    else:
                        p.prove("%s: half a range adds nothing" % name, new == [])
                        want[tag] = v
                for t in (a, b):
                    got = x.locals.get(t)
                    p.prove("%s: what waits for the other half of its range" % name,
                            got is None if want[t] is None else got is not None and eqi(it.to_int(got), want[t]))
            p.prove("locals change no global", st.globals_are(st.g))
            p.prove("locals change no collection", st.levels_are(st.level, [st.parent] if st.parent is st.top else [st.rest, st.parent])
                    and st.level.members == [st.members] and st.parent.members == [st.below] and x.namedArrayLevels == [] and x.globalsStack == [st.outer])
            p.prove("locals declare nothing", x.offsets.own == {})
        run_harness(report, "local", h, items=True)
    return unit


def unit_globals(tag):
    def unit(report):
        def h(p, it):
            contracts(it)
            st = State(p, it, small=True)
            x = st.x
            v = fresh_value(p, (1, tag), keep=True)
            if tag == 8:
                p.assume(v.e < 256)
            if tag == 0:
                p.assume(v.e < 65536)
            flow = p.choose(2)
            want = dict(st.g)
            if flow:
                st.send((1, 10), 0)
                p.prove("push changes no global", st.globals_are(st.g))
                p.prove("push saves one state", len(x.globalsStack) == 2 and x.globalsStack[0] is st.outer)
            st.send((1, tag), v)
            want[tag] = v
            p.prove("a global takes the given value, the others keep theirs", st.globals_are(want))
            if flow:
                st.send((1, 11), 0)
                p.prove("pop restores what push saved", st.globals_are(st.g))
            p.prove("saved states below stay", len(x.globalsStack) == 1 and x.globalsStack[0] is st.outer)
            p.prove("globals change no local", st.lists_are() and all(w is None for w in x.locals.values()))
            p.prove("globals change no collection", st.levels_are(st.level, [st.parent] if st.parent is st.top else [st.rest, st.parent])
                    and st.level.members == [st.members] and st.parent.members == [st.below] and x.namedArrayLevels == [] and x.offsets.own == {})
        run_harness(report, "global", h, items=True)
    return unit


def unit_pop(report):
    def h(p, it):
        contracts(it)
        st = State(p, it)
        x = st.x
        if p.choose(2):
            x.globalsStack = []
            st.send((1, 11), 0)
            p.prove("pop with nothing saved changes nothing", st.globals_are(st.g) and x.globalsStack == [])
        else:
            saved = {t: p.int("saved%d" % t) for t in range(10)}
            x.globalsStack = [st.outer, dict(saved)]
            st.send((1, 11), 0)
            p.prove("pop restores every global of the last push", st.globals_are(saved))
            p.prove("pop takes one state", x.globalsStack == [st.outer])
        p.prove("pop changes no local and no collection", st.lists_are() and st.x.currentLevel is st.level)
    run_harness(report, "pop", h, items=True)


# ------------------------------------------------------------ collections
def quiet_grouping(it, log):
    """Filing under reports is C08's: here only what it is called on."""
    def insert(it, args, kwargs):
        log.append(args[-1])
        r = it.call(_d.TopLevel, ())
        # C08: what stands below the top level are reports and collections
        r.members = [Block(it.path.int("filed", 0), None, lambda it, i: it.call(_d.Report, (1,)) if it.path.choose(2) else it.call(_d.Collection, (1, None)), "filed")]
        r.vf_of = args[-1]
        return r

    def merge(it, args, kwargs):
        return None
    it.hooks[X.reportInsert] = insert
    it.hooks[X.reportIdMerge] = merge


def unit_collection(report):
    def h(p, it):
        contracts(it)
        log = []
        st = State(p, it, top=bool(p.choose(2)))
        p.assume(st.n["u"].e <= 1)
        quiet_grouping(it, log)
        x = st.x
        stack, members = list(x.stack), list(st.level.members)
        st.outer_opened()
        kind = p.int("newkind", 0, (1 << 32) - 1, keep=True)
        st.send((0, 10), kind)
        c = x.currentLevel
        p.prove("a collection becomes a new, empty collection", type(c) is _d.Collection and c is not st.level and c.members == [])
        if type(c) is not _d.Collection:
            return
        p.prove("of its kind", eqi(it.to_int(c.kind), kind))
        p.prove("with its usage, completed by the page", land((c.usage is None) == p.valid(st.n["u"].e == 0) or c.usage is not None,
                                                           mkbool(zi(num(it, c.usage)) == st.pick("u", 0))))
        p.prove("inside the collections it was in", st.levels_are(c, stack + [st.level]) and st.level.members == members)
        p.prove("its usages are used up", st.cleared())
        p.prove("opening a collection changes no global", st.globals_are(st.g))
        p.prove("opening a collection declares nothing", x.offsets.own == {} and not log)
        p.prove("opening a collection leaves named arrays further out open", st.opened_are(st.open))
    run_harness(report, "collection", h, items=True)

    def end(p, it):
        contracts(it)
        log = []
        st = State(p, it)
        quiet_grouping(it, log)
        x = st.x
        stack = list(x.stack)
        own = p.choose(2)
        st.outer_opened(strict=not own)
        if own:
            # the end of the collection of a named array: the value stands for it
            st.opened(st.open + [st.depth()])
        before = st.open[:-1] if own else st.open
        st.send((0, 12), 0)
        p.prove("the end of a collection leaves named arrays further out open, and no other", st.opened_are(before))
        if own:
            p.prove("named array: the collections stay as they are", st.levels_are(st.level, stack) and st.level.members == [st.members] and st.parent.members == [st.below])
        else:
            p.prove("the collection is closed", st.levels_are(st.parent, stack[:-1]))
            p.prove("the collection is kept, once, after what came before it", len(st.parent.members) == 2 and st.parent.members[0] is st.below and st.parent.members[1] is st.level)
            p.prove("the collection stays as it is", st.level.members == [st.members] and eqi(it.to_int(st.level.kind), st.kind)
                    and (st.level.usage is None if st.cusage is None else eqi(num(it, st.level.usage), st.cusage)))
        p.prove("its usages are used up", st.cleared())
        p.prove("closing a collection changes no global", st.globals_are(st.g))
        p.prove("closing a collection declares nothing", x.offsets.own == {})
        root = x.__dict__.get("root")
        if not x.stack:
            p.prove("the end of a top-level collection yields the description", len(log) >= 1 and log[-1] is x.currentLevel
                    and root is not None and getattr(root, "vf_of", None) is x.currentLevel)
    run_harness(report, "end of collection", end, items=True)

    def end_top(p, it):
        """The end of a named array whose collection is at top level."""
        contracts(it)
        log = []
        st = State(p, it, top=True)
        quiet_grouping(it, log)
        x = st.x
        st.opened([0])
        st.send((0, 12), 0)
        p.prove("no named array is left open", st.opened_are([]))
        p.prove("named array at top level: the collections stay as they are", st.levels_are(st.top, []) and st.top.members == [st.below])
        p.prove("named array at top level: the description is yielded", len(log) >= 1 and log[-1] is st.top and getattr(x.__dict__.get("root"), "vf_of", None) is st.top)
        p.prove("its usages are used up", st.cleared())
    run_harness(report, "end of a top-level named array", end_top, items=True)


# ------------------------------------------------------------- data items
def describes(p, it, st, v, i, count, way, pc):
    """Obligations: the value describes `count` controls of the data item, from control i on."""
    def prove(name, c):
        if isinstance(c, bool):
            c = mkbool(z3.Implies(pc, z3.BoolVal(c)))
        else:
            c = mkbool(z3.Implies(pc, zb(c)))
        p.prove(name, c)
    g, f = st.g, st.flags
    isval = isinstance(v, _d.Value)
    prove("a value, nothing else", isval)
    if not isval:
        return
    constant = p.valid((f.e % 2) == 1)
    prove("direction", eqi(it.to_int(v.way), way))
    if constant:
        return
    prove("no padding in its place", not isinstance(v, (_d.Align, _d.Padding)))
    prove("size", eqi(it.to_int(v.size), g[7]))
    prove("flags", eqi(it.to_int(v.flags), f))
    prove("logical minimum", eqi(it.to_int(v.logicalMin), g[1]))
    prove("logical maximum", eqi(it.to_int(v.logicalMax), g[2]))
    variable = p.valid((f.e / 2) % 2 == 1)
    nu, nd, ns = (st.n[k].e for k in "uds")
    one = p.valid(zi(count) == 1)
    if not one:
        # one value for several controls: they must all be alike
        prove("several controls in one value have the same usage, designator and string", mkbool(z3.Or(zi(count) <= 1, z3.And(nu <= 1, nd <= 1, ns <= 1))))
    if v.namedArray is None:
        z = z3.And(g[3].e == 0, g[4].e == 0)
        prove("physical minimum", mkbool(zi(it.to_int(v.physicalMin)) == z3.If(z, g[1].e, g[3].e)))
        prove("physical maximum", mkbool(zi(it.to_int(v.physicalMax)) == z3.If(z, g[2].e, g[4].e)))
        prove("unit", eqi(it.to_int(v.unit), g[6]))
        prove("exponent", eqi(it.to_int(v.unitExponent), g[5]))
        if variable:
            prove("usage", mkbool(zi(num(it, v.usage)) == st.pick("u", i)))
        else:
            # KF1: the usages of an array that has several, unless they make a named array
            several = z3.And(nu > 1, nu != g[2].e - g[1].e + 1)
            prove("usage", mkbool(z3.Or(several, zi(num(it, v.usage)) == st.pick("u", i))))
            prove("array: no usage is lost", mkbool(z3.Or(several, nu <= 1)))
    else:
        n, at = entries(it, v.namedArray)
        prove("named array: one control", mkbool(zi(count) == 1))
        prove("named array: as many entries as usages", eqi(n, st.n["u"]))
        k = p.int("k", 0)
        p.assume(k.e < nu)
        prove("named array: the usages, in order", mkbool(zi(at(k)) == st.full(st.fn["u"](k.e))))
    # KF1: several designators or strings of an array
    array = z3.BoolVal(not variable)
    prove("designator", mkbool(z3.Or(z3.And(array, nd > 1), zi(num(it, v.designator)) == st.pick("d", i))))
    prove("string", mkbool(z3.Or(z3.And(array, ns > 1), zi(num(it, v.string)) == st.pick("s", i))))
    a = num(it, v.alignment)
    if not isinstance(a, int):
        prove("alignment of at most 8", mkbool(zi(a) <= 8))
    if not isinstance(a, int) or a > 1:
        prove("it stays where it is: no padding before it", mkbool(fits(zi(st.off.get(way, 0)), zi(i), g[7].e, zi(a)) if not isinstance(a, int) or a <= 8 else (zi(st.off.get(way, 0)) + zi(i) * g[7].e) % a == 0))


DESCRIBES = describes


def scope(p, st):
    """The data items the property is about."""
    g = st.g
    p.assume(g[1].e <= g[2].e)


def kf3(st):
    """A Named Array collection with a usage, around its named array: comes back as a Logical one."""
    g, f = st.g, st.flags
    if st.kind is None or st.cusage is None:
        return z3.BoolVal(False)
    return z3.And(st.kind.e == 4, st.cusage.e != 0, st.nm.e == 0, g[9].e == 1, st.n["u"].e == g[2].e - g[1].e + 1, f.e == 2)


def unit_data(way, what, describes=None):
    describes = describes or DESCRIBES
    bits = {"constant": {0: 1}, "array": {0: 0, 1: 0}, "variable": {0: 0, 1: 1, 8: 0}, "variable buffered": {0: 0, 1: 1, 8: 1}}[what]

    def unit(report):
        def h(p, it):
            st, f = data(p, it, way, bits, report)
            if what != "constant":
                scope(p, st)
            x, g = st.x, st.g
            stack, wasmembers = list(x.stack), list(st.level.members)
            if what != "constant":
                st.outer_opened()
            st.send((0, way), f)
            p.prove("its locals are used up", st.cleared())
            p.prove("a data item changes no global", land(st.globals_are(g), x.globalsStack == [st.outer]))
            if not isinstance(x.namedArrayLevels, list) or len(x.namedArrayLevels) < len(st.open):
                raise Unsupported("open named arrays kept another way")
            own = len(x.namedArrayLevels) > len(st.open)
            p.prove("only the collection of a named array is taken away", st.opened_are(st.open + ([st.depth()] if own else [])))
            if what != "constant" and own is not True:
                p.prove("a named array declared the way they are compiled is recognised", mkbool(z3.Not(kf3(st))))
            if own is True:
                p.prove("own collection: it held nothing else", mkbool(st.nm.e == 0))
                p.prove("own collection: closed for the value, which stands for it", st.levels_are(st.parent, stack[:-1]))
                p.prove("own collection: of the kind named arrays are given", mkbool(z3.Or(st.kind.e == 2, kf3(st))))
                target, old = st.parent, st.below
            else:
                p.prove("the collections stay as they are", st.levels_are(st.level, stack) and st.parent.members == [st.below])
                target, old = st.level, st.members
            out, total = added(p, it, target.members, old)
            if out is None:
                return
            now = x.offsets.own.get(way)
            if what == "constant":
                bits_ = 0
                for i, c, v, pc in out:
                    describes(p, it, st, v, i, c, way, pc)
                    if not (isinstance(v, _d.Padding) and z3.is_true(pc)):
                        raise Unsupported("padding made another way")
                    bits_ = mkint(zi(bits_) + zi(it.to_int(v.size)))
                p.prove("constants: as many bits of padding", mkbool(zi(bits_) == g[7].e * g[9].e))
            else:
                p.prove("as many controls as the report count", eqi(total, g[9]))
                for i, c, v, pc in out:
                    describes(p, it, st, v, i, c, way, pc)
                    if own is True and isinstance(v, _d.Value):
                        p.prove("own collection: the value takes its usage", v.usage is not None and v.namedArray is not None and eqi(num(it, v.usage), st.cusage) if st.cusage is not None else False)
                    elif isinstance(v, _d.Value) and v.namedArray is not None:
                        p.prove("named array: no usage besides its entries", v.usage is None)
            p.prove("the bits declared so far", now is not None and now[0] and mkbool(zi(it.to_int(now[1])) == zi(st.off.get(way, 0)) + g[7].e * g[9].e)
                    or now is None and mkbool(g[7].e * g[9].e == 0))
            p.prove("the other directions stay", set(x.offsets.own) <= {way})
        run_harness(report, "data item", h, items=True)
    return unit


UNITS = [("start", unit_start)]
for _t in hid.FAMILY:
    if _t != hid.DELIMITER:
        UNITS.append(("local item %d" % _t, unit_locals(_t)))
for _t in range(10):
    UNITS.append(("global item %d" % _t, unit_globals(_t)))
UNITS += [("pop", unit_pop), ("collections", unit_collection)]
for _w in WAYS:
    for _k in ("constant", "array", "variable", "variable buffered"):
        UNITS.append(("%s %s" % (WAYS[_w], _k), unit_data(_w, _k)))


def check(inp):
    return compare(inp, True)


def check_known(inp):
    return compare(inp, False)


def compare(inp, scoped):
    ts = [tuple(t) for t in inp["items"]]
    try:
        s = dec.Scan(ts)
    except hid.TooBig:
        return "skip"
    if scoped and s.out:
        return "skip"
    want = dec.norm(s.events)
    for binary in (False, True):
        try:
            got = dec.norm(hid.events(dec.compile_(dec.decompile(ts, binary))))
        except hid.TooBig:
            return "skip"
        try:
            m = dec.diff(*dec.beside(want, got, s.kf)) if scoped and s.kf else dec.diff(want, got)
        except hid.TooBig:
            return "skip"
        if m:
            return m
        if scoped and set(s.kf) <= {"KF3"}:
            named = dec.named_arrays(dec.decompile(ts, binary))
            if named != s.named:
                return "named arrays %s came back as %s" % (s.named, named)
    return None


gen, smaller = dec.gen, dec.smaller


def fixed(hints):
    for l in dec.fixed_streams():
        yield {"items": l}
