"""An extractor (decompiler) in an arbitrary state, side by side with the HID machine's state."""
import inspect
import z3
from .lib import *
from .tape import mkitem
from . import hid

X = _extractor.Extractor
ATTRS = {"globals", "usages", "strings", "designators", "locals", "globalsStack", "stack", "offsets", "currentLevel", "namedArrayLevels"}
LISTS = (("u", "usages"), ("d", "designators"), ("s", "strings"))
PEND = {"u": (1, 2), "d": (4, 5), "s": (8, 9)}
NARY = z3.Function("kind_Named_Array", z3.IntSort(), z3.BoolSort())


class Offsets(SymDict):
    """Bits already declared, per (direction, report id); only the report in force is looked at."""

    def __init__(self, st):
        SymDict.__init__(self, self.entry)
        self.st = st

    def entry(self, it, way):
        st = self.st
        if it.path.choose(2):
            st.off[way] = 0
            return None                 # nothing declared yet
        st.off[way] = it.path.int("offset", 0)
        return (st.off[way],)

    def _k(self, it, key):
        if not (isinstance(key, tuple) and len(key) == 2):
            raise Unsupported("offsets under another key")
        w = it.to_int(key[0])
        if not isinstance(w, int):
            raise Unsupported("offset of an unknown direction")
        if not it.path.valid(eqi(it.to_int(key[1]), self.st.g[8])):
            raise Unsupported("offset of another report")
        return w


class State:
    """ghost: g (globals), n/fn (locals), kind/cusage/nm (the collection the item is in), off (bits declared)"""

    def __init__(self, p, it, small=False, top=False):
        self.p, self.it = p, it
        x = self.x = it.call(X, ())
        if set(x.__dict__) != ATTRS or type(x.globals) is not dict or set(x.globals) - set(range(12)) or not set(range(10)) <= set(x.globals) \
                or type(x.locals) is not dict or set(x.locals) != {1, 2, 4, 5, 8, 9, 10} or type(x.stack) is not list or type(x.globalsStack) is not list \
                or type(x.usages) is not list or type(x.designators) is not list or type(x.strings) is not list or type(x.offsets) is not dict or type(x.namedArrayLevels) is not list:
            raise Unsupported("extractor state of another shape")
        apart(x)
        self.names = p.choose(2)        # numbers, or the named constants the readers make of them
        self.g = {}
        for t in range(10):
            signed = t in hid.SIGNED
            v = p.int("g%d" % t, -(1 << 31) if signed else 0, (1 << 31) - 1 if signed else (1 << 32) - 1, keep=True)
            self.g[t] = v
            x.globals[t] = named(p, v) if self.names and t in (0, 6) else v
        p.assume(self.g[0].e < 65536)
        p.assume(self.g[8].e < 256)
        self.n, self.fn, self.blk = {}, {}, {}
        for f, name in LISTS:
            n = self.n[f] = p.int("n" + f, 0, keep=True)
            fn = self.fn[f] = z3.Function(name, z3.IntSort(), z3.IntSort())

            def get(it, i, fn=fn, f=f):
                e = fn(zi(it.to_int(i)))
                it.path.assume(z3.And(e >= 0, e < (1 << 32)))
                if f != "u" or not self.names:
                    return SymInt(e)
                return abstract_usage(SymInt(e))
            lst = []
            self.blk[f] = Block(n, None, get, name)
            lst.append(self.blk[f])
            x.__dict__[name] = lst
        self.rest = Block(p.int("depth", 0), None, None, "outer levels")
        self.below = Block(p.int("older", 0), None, None, "older members")
        self.top = x.currentLevel
        if type(self.top) is not _d.TopLevel:
            raise Unsupported("top level of another kind")
        if top:
            x.stack = []
            self.level = self.parent = self.top
            p.assume(self.rest.n.e == 0)
            self.kind = None
        else:
            # for what does not look at the enclosing levels, any one of them will do
            self.parent = self.top if small or p.choose(2) else self.collection("outer", True)[0]
            if self.parent is self.top:
                x.stack = [self.parent]
                p.assume(self.rest.n.e == 0)
            else:
                p.assume(self.rest.n.e > 0)
                x.stack = [self.rest, self.parent]
            self.level, self.kind, self.cusage, self.nm, self.members = self.collection("", small)
        if self.parent is not self.level or top:
            self.parent.members = [self.below]
        x.currentLevel = self.level
        self.outer = Block(p.int("saved", 0), None, None, "saved globals")
        x.globalsStack = [self.outer]
        self.off = {}
        x.offsets = Offsets(self)
        self.opened([])

    def opened(self, levels):
        """the nesting levels where a collection, replaced by its named array, still has to end"""
        self.open = list(levels)
        self.x.namedArrayLevels = list(levels)

    def outer_opened(self, strict=False):
        """any one further out, where a collection inside such a collection is concerned"""
        p = self.p
        if p.choose(2):
            v = p.int("openlevel", 0)
            p.assume(zi(v) < zi(self.depth()) + (0 if strict else 1))
            self.opened([v])

    def depth(self):
        return self.it.length(self.x.stack)

    def opened_are(self, levels):
        l = self.x.namedArrayLevels
        return isinstance(l, list) and len(l) == len(levels) and land(*[eqi(self.it.to_int(a), b) for a, b in zip(l, levels)])

    def collection(self, name, plain=False):
        p, it = self.p, self.it
        kind = p.int(name + "kind", 0, (1 << 32) - 1, keep=True)
        cu = p.int(name + "collusage", 0, (1 << 32) - 1, keep=True) if plain or p.choose(2) else None
        if cu is not None:
            # table contract (obligation: registry-nary): named arrays are usages of a page
            p.assume(z3.Implies(NARY(cu.e), cu.e >= 65536))
        c = it.call(_d.Collection, (named(p, kind), None if cu is None else abstract_usage(cu)))
        if set(c.__dict__) != {"members", "kind", "usage"}:
            raise Unsupported("collection of another shape")
        nm = p.int(name + "members", 0, keep=True)
        b = Block(nm, None, None, name + "members")
        c.members = [b]
        return c, kind, cu, nm, b

    def send(self, kt, v):
        i = mkitem(self.it, kt, v)
        self.it.call_method(self.x, "append", (i,))
        return i

    def full(self, u):
        return z3.If(u >= 65536, u, zi(self.g[0]) * 65536 + u)

    def pick(self, f, i):
        """what control i gets (hid.py)"""
        n = zi(self.n[f])
        v = self.fn[f](z3.If(zi(i) < n, zi(i), n - 1))
        if f == "u":
            v = self.full(v)
        return z3.If(n == 0, 0, v)

    def globals_are(self, want):
        x, it = self.x, self.it
        return land(*[eqi(it.to_int(x.globals.get(t, 0)), want[t]) for t in range(10)])

    def lists_are(self, **extra):
        """each list is what it was"""
        return all(len(getattr(self.x, name)) == 1 and getattr(self.x, name)[0] is self.blk[f] for f, name in LISTS)

    def levels_are(self, level, stack):
        x = self.x
        return x.currentLevel is level and len(x.stack) == len(stack) and all(a is b for a, b in zip(x.stack, stack))

    def cleared(self):
        x = self.x
        return x.usages == [] and x.designators == [] and x.strings == [] and all(v is None for v in x.locals.values())


def registry_nary(report):
    from hrdc.usage.usage import NAry
    bad = [k for k, u in UsageConst.reverse.items() if NAry in u.kinds and k < 65536]
    report.add("registry-nary: a usage that is a named array belongs to a page", "failed" if bad else "proved", "evaluation", 0.0, None, bad[:5] or None)


def lookup_contract(it, args, kwargs):
    """Usage.lookup, by C10: a usage of that value."""
    v = args[-1]
    if isinstance(v, UsageConst):
        return v
    return abstract_usage(it.to_int(v))


class NotConsecutive(ValueError):
    pass


def from_array_contract(it, args, kwargs):
    """UsageRange.from_array, by C10: a range of exactly the given usages, or ValueError when they are not two or more consecutive ones."""
    arr = args[-1]
    p = it.path
    if not (isinstance(arr, list) and len(arr) == 1 and isinstance(arr[0], Block) and arr[0].n is not None):
        raise Unsupported("from_array of another list")
    b = arr[0]
    if p.fork(zi(b.n) < 2) or p.choose(2):
        raise NotConsecutive
    first = it.to_int(b.get(it, 0))
    last = mkint(zi(b.n) - 1)

    def at(i):
        p.assume(z3.Implies(z3.And(zi(i) >= 0, zi(i) < zi(b.n)), zi(it.to_int(b.get(it, i))) == zi(first) + zi(i)))
    at(last)
    r = it.born(object.__new__(UsageRange))
    r.min, r.max = b.get(it, 0), b.get(it, last)
    r.vf_consecutive = at
    return r


def value_contract(it, c, args, kwargs):
    """Value's constructor, by C13."""
    p = it.path
    if c is not _d.Value:
        return NotImplemented
    try:
        b = inspect.signature(_d.Value.__init__).bind(None, *args, **kwargs)
    except TypeError:
        return NotImplemented
    a = dict(b.arguments)
    default = {k: q.default for k, q in inspect.signature(_d.Value.__init__).parameters.items()}
    if set(default) != {"self", "way", "usage", "size", "flags", "logicalMin", "logicalMax", "physicalMin", "physicalMax", "namedArray",
                        "unit", "unitExponent", "designator", "string", "count", "alignment"} or "flags" not in a or "logicalMin" not in a:
        return NotImplemented
    na = a.get("namedArray")
    if na is None:
        if a.get("logicalMax") is None:
            return NotImplemented
    else:
        n = mkint(zi(it.to_int(na.max)) - zi(it.to_int(na.min)) + 1) if isinstance(na, UsageRange) else it.length(na)
        if not p.valid(zi(n) >= 1):
            return NotImplemented
    if a["logicalMin"] is None:
        return NotImplemented
    x = it.born(object.__new__(c))
    x.way, x.usage, x.size = a["way"], a["usage"], a["size"]
    for k, d in (("unit", 0), ("unitExponent", 0), ("designator", 0), ("string", 0), ("count", 1)):
        setattr(x, k, a.get(k, d))
    x.namedArray = na
    x.logicalMin = a["logicalMin"]
    x.flags = a["flags"]
    x.alignment = a.get("alignment")
    if x.alignment is None:
        size = it.to_int(x.size)
        x.alignment = mkint(z3.If(zi(size) < 8, zi(size), 8))
    if na is None:
        x.logicalMax = a["logicalMax"]
        lo, hi = num(it, a.get("physicalMin")), num(it, a.get("physicalMax"))
        z = z3.And(zi(lo) == 0, zi(hi) == 0)
        x.physicalMin = mkint(z3.If(z, zi(it.to_int(x.logicalMin)), zi(lo)))
        x.physicalMax = mkint(z3.If(z, zi(it.to_int(x.logicalMax)), zi(hi)))
    else:
        x.logicalMax = mkint(zi(n) + zi(it.to_int(x.logicalMin)) - 1)
        x.physicalMin = x.physicalMax = it.path.int("physical bounds of a named array")
        u = a["usage"]
        if u is None or (p.valid(zi(it.to_int(u)) == 0) if not p.valid(zi(it.to_int(u)) != 0) else False):
            f = zi(it.to_int(a["flags"]))
            x.flags = mkint(f - 2 * ((f / 2) % 2))
        elif not p.valid(zi(it.to_int(u)) != 0):
            return NotImplemented
    return x


# contracts of the extractor's own helpers: used only when they are discharged on the current source
HELPERS = {}


def discharged(report, name, h):
    if name not in HELPERS:
        r = Report()
        try:
            run_harness(r, name, h, items=True)
            HELPERS[name] = r if r.ob and all(o["status"] == "proved" for o in r.ob.values()) else None
        except Unsupported:
            HELPERS[name] = None
    if HELPERS[name] is None:
        return False
    report.merge({k: dict(o, backends=dict(o["backends"])) for k, o in HELPERS[name].ob.items()})
    return True


def pick_harness(f, name):
    def h(p, it):
        lookups(it)
        st = State(p, it, small=True)
        i = p.int("index", 0)
        r = it.call_method(st.x, name, (i,))
        p.prove("%s(i): the value control i gets, completed by the page" % name, mkbool(zi(num(it, r)) == st.pick(f, i)))
        if f == "u":
            p.prove("usage(i): a usage, or nothing when there is none", r is None and p.valid(st.n["u"].e == 0) or isinstance(r, (UsageConst, SymInt)) and p.valid(st.n["u"].e > 0))
        r2 = it.call_method(st.x, name, ())
        p.prove("%s(): that of the first control" % name, mkbool(zi(num(it, r2)) == st.pick(f, 0)))
    return h


def align_harness(p, it):
    st = State(p, it, small=True)
    way = (8, 9, 11)[p.choose(3)]
    i = p.int("index", 0)
    if p.choose(2):
        i = 0
    item = mkitem(it, (0, way), p.int("flags", 0, 511))
    r = it.call_method(st.x, "alignment", (item, i))
    if r is None:
        p.prove("alignment: the default only where it fits", mkbool(fits(zi(st.off.get(way, 0)), zi(i), st.g[7].e, z3.If(st.g[7].e < 8, st.g[7].e, 8))))
    else:
        p.prove("alignment: none where the default does not fit", eqi(it.to_int(r), 1))
    p.prove("alignment changes nothing", st.x.offsets.own == {})


def fits(off, i, size, a):
    before = off if z3.is_int_value(i) and i.as_long() == 0 else off + i * size
    return z3.And([z3.Implies(a == c, before % c == 0) for c in range(2, 9)])


def lookups(it):
    it.hooks[UsageConst.lookup.__func__] = lookup_contract
    it.hooks[UsageRange.from_array.__func__] = from_array_contract


def contracts(it):
    lookups(it)
    it.class_hooks.append((_d.Value, value_contract))


def helper_contracts(it, st, report):
    """The extractor's usage(), string(), designator(), alignment() by contract, each discharged first."""
    def picker(f):
        def hook(it, args, kwargs):
            i = args[1] if len(args) == 2 else kwargs.get("index", 0)
            if args[0] is not st.x or len(args) > 2 or set(kwargs) - {"index"}:
                raise Unsupported("helper called another way")
            v = mkint(st.pick(f, it.to_int(i)))
            if f != "u":
                return v
            if it.path.fork(st.n["u"].e == 0):
                return None
            return abstract_usage(v)
        return hook
    for f, name in (("u", "usage"), ("s", "string"), ("d", "designator")):
        fn = getattr(X, name, None)
        if inspect.isfunction(fn) and list(inspect.signature(fn).parameters) == ["self", "index"] and discharged(report, name, pick_harness(f, name)):
            it.hooks[fn] = picker(f)

    def align(it, args, kwargs):
        if args[0] is not st.x or kwargs or not 2 <= len(args) <= 3:
            raise Unsupported("helper called another way")
        i = zi(it.to_int(args[2])) if len(args) == 3 else zi(0)
        way = it.to_int(it.getattr(args[1], "tag"))
        it.dict_get(st.x.offsets, (way, st.g[8]))
        if it.path.choose(2):
            return 1
        it.path.assume(fits(zi(st.off.get(way, 0)), i, st.g[7].e, z3.If(st.g[7].e < 8, st.g[7].e, 8)))
        return None
    fn = getattr(X, "alignment", None)
    if inspect.isfunction(fn) and list(inspect.signature(fn).parameters) == ["self", "i", "index"] and discharged(report, "alignment", align_harness):
        it.hooks[fn] = align


def entries(it, na):
    """(length, entry i) of a named array"""
    if isinstance(na, UsageRange):
        lo, hi = it.to_int(na.min), it.to_int(na.max)

        def at(i):
            if getattr(na, "vf_consecutive", None):
                na.vf_consecutive(i)
            return mkint(zi(lo) + zi(i))
        return mkint(zi(hi) - zi(lo) + 1), at
    if isinstance(na, list) and len(na) == 1 and isinstance(na[0], Block) and na[0].n is not None:
        return na[0].n, lambda i: it.to_int(na[0].get(it, i))
    raise Unsupported("named array of another kind")


def num(it, v):
    return 0 if v is None else it.to_int(v)


def data(p, it, way, flags_bits, report):
    """An arbitrary state, about to receive a data item."""
    contracts(it)
    st = State(p, it)
    helper_contracts(it, st, report)
    f = st.flags = p.int("flags", 0, 511, keep=True)
    for bit, v in flags_bits.items():
        p.assume((f.e / (1 << bit)) % 2 == v)
    return st, f


def added(p, it, members, old):
    """What was appended behind `old`: [(first control, count or None, value, pc)] and the number of controls in all."""
    if not (len(members) >= 1 and members[0] is old):
        p.prove("what was there before stays", False)
        return None, None
    pos, out = 0, []
    for m in members[1:]:
        if isinstance(m, Derived):
            src = m.src
            if src.n is None or any(len(r[3]) != 1 for r in m.results) or isinstance(src, Derived):
                raise Unsupported("a loop that files several values at once")
            lo = it.to_int(src.get(it, 0))
            for label, elem, pc, o in m.results:
                e = it.to_int(elem)
                out.append((mkint(zi(pos) + zi(e) - zi(lo)), 1, o[0], pc))
            pos = mkint(zi(pos) + zi(src.n))
        elif isinstance(m, (Block, Maybe)):
            raise Unsupported("members of another kind")
        else:
            c = num(it, getattr(m, "count", 1)) if isinstance(m, _d.Value) else 1
            out.append((pos, c, m, z3.BoolVal(True)))
            pos = mkint(zi(pos) + zi(c))
    return out, pos
