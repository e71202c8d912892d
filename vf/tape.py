"""Streams of items as sequences that may contain unbounded blocks of unknown items,
and the equivalences of such sequences that the HID state machine (hid.py) justifies.

Blocks have one case per item type, labelled (kind, tag); `labels` lists them.

Two sequences mean the same when they have the same main items in order and, between
two main items, the same globals in order and the same locals of each family (usage
with delimiters, designator, string) in order: in hid.py a local of one family touches
only the list of that family, a global only the global table, and both are read
only at a main item, so items of different components commute (lemma `commute`, checked
against hid.py by selftest).
"""
from .lib import *

ALL = [k for k in conc.ITEMS]
MAINS = [k for k in ALL if k[0] == 0]
NONMAIN = [k for k in ALL if k[0] != 0]
DATA = [(0, 8), (0, 9), (0, 11)]
FAM = {0: "u", 1: "u", 2: "u", 10: "u", 3: "d", 4: "d", 5: "d", 7: "s", 8: "s", 9: "s"}
COMP = {k: ("g" if k[0] == 1 else FAM[k[1]]) for k in NONMAIN}
CLOSE = "close"


class Down:
    """The stream below a pass: records what it is given, close included."""
    _vf_class = True

    def __init__(self):
        self.l = SinkList()

    @property
    def append(self):
        def f(it, x):
            it.touch(self.l)
            self.l.append(x)
        f._vf_native = True
        return f

    @property
    def close(self):
        def f(it):
            it.touch(self.l)
            self.l.append(CLOSE)
        f._vf_native = True
        return f


def mkitem(it, kt, v):
    """An item as its constructor leaves it (contract: C01)."""
    c = _item.Item.registry[kt]
    x = it.born(object.__new__(c))
    if kt in conc.NOVALUE:
        v = 0
    if kt[0] == 2 and kt[1] <= 2:
        u = object.__new__(UsageConst)
        u.value, u.kinds = v, OpaqueKinds(v)
        u.name = SymStr([Opaque("usage text", nonempty=True, meaning=("usage", v))])
        v = u
    elif kt[0] == 0 and kt not in conc.NOVALUE:
        v = named(it.path, v)
    x.value = v
    x.optionalValue = kt in ((0, 8), (0, 12))
    x.vf_kt = kt
    return x


def fresh_value(p, kt, name="value", keep=False):
    if kt in conc.NOVALUE:
        return 0
    if conc.ITEMS[kt][1]:
        return p.int(name, -(1 << 31), (1 << 31) - 1, keep=keep)
    return p.int(name, 0, (1 << 32) - 1, keep=keep)


def block(p, labels, name, n=None, value=None):
    """An unknown number of items of the given types; value(it, kt) gives their values."""
    def case(kt):
        def make(it, i):
            return mkitem(it, kt, value(it, kt) if value else fresh_value(it.path, kt, "some"))
        return (kt, make)
    b = Block(p.int("n", 0) if n is None else n, [case(k) for k in labels], None, name)
    b.labels = list(labels)
    return b


def triple(it, x):
    return int(it.to_int(it.getattr(x, "kind"))), int(it.to_int(it.getattr(x, "tag"))), it.to_int(it.getattr(x, "value"))


def root(x):
    """(block, types of items dropped from it); proves that items are kept as they are or dropped by type."""
    if not isinstance(x, Derived):
        return x, frozenset()
    src, gone = root(x.src)
    p = sym.cur()
    keep, drop = set(), {}
    for label, elem, pc, out in x.results:
        if not out:
            drop.setdefault(label, []).append(pc)
        elif len(out) == 1 and out[0] is elem:
            keep.add(label)
        else:
            raise Unsupported("items of a block are rewritten")
    for label in list(drop):
        if label in keep:
            for pc in drop[label]:
                p.prove("items are not dropped for their value", lnot(mkbool(pc)))
            del drop[label]
    return src, gone | frozenset(drop)


def has(x, kt):
    b, gone = root(x)
    return kt in b.labels and kt not in gone


class Seg:
    """Items up to and including a main item (None: not there yet)."""

    def __init__(self):
        self.c = {"g": [], "u": [], "d": [], "s": []}
        self.main = None


def segments(it, seq):
    out = [Seg()]
    for x in seq:
        if isinstance(x, Maybe) or x is CLOSE:
            raise Unsupported("conditional item")
        s = out[-1]
        if isinstance(x, Block):
            b, gone = root(x)
            left = [k for k in b.labels if k not in gone]
            if any(k[0] == 0 for k in left):
                raise Unsupported("main items in a block")
            for c in s.c:
                ks = frozenset(k for k in left if COMP[k] == c)
                if ks:
                    s.c[c].append((b, ks))
            continue
        k, t, v = triple(it, x)
        if k == 0:
            s.main = (t, v)
            out.append(Seg())
        else:
            s.c[COMP[k, t]].append((k, t, v))
    return out


def seq_eq(p, a, b):
    """Same items, block for block, value for value."""
    if len(a) != len(b):
        return False
    cs = []
    for x, y in zip(a, b):
        if len(x) != len(y):
            return False
        if len(x) == 2:
            if x[0] is not y[0] or x[1] != y[1]:
                return False
            continue
        if x[:2] != y[:2]:
            return False
        cs.append(eqi(x[2], y[2]))
    return land(*cs)


def runs(p, l, ghost):
    """A family of locals as runs of consecutive numbers, or None when it is not one."""
    out, i = [], 0
    while i < len(l):
        x = l[i]
        if len(x) == 2:
            r = ghost(x[0], x[1])
            if r is None:
                return None
            if r != ():
                out.append(r)
        elif x[1] in (0, 3, 7):
            out.append((zi(x[2]), zi(x[2])))
        elif x[1] in (1, 4, 8) and i + 1 < len(l) and len(l[i + 1]) == 3 and l[i + 1][1] == x[1] + 1:
            lo, hi = zi(x[2]), zi(l[i + 1][2])
            if not p.valid(mkbool(lo <= hi)) or (x[1] == 1 and not p.valid(mkbool(lo / 65536 == hi / 65536))):
                return None
            out.append((lo, hi))
            i += 1
        else:
            return None
        i += 1
    m = []
    for lo, hi in out:
        if m and p.valid(mkbool(m[-1][1] + 1 == lo)):
            m[-1] = (m[-1][0], hi)
        else:
            m.append((lo, hi))
    return m


def fam_eq(p, c, a, b, ghost=None, zero=False):
    """The families a and b of locals declare the same."""
    if ghost is not None:
        ra, rb = runs(p, a, ghost), runs(p, b, ghost)
        if ra is not None and rb is not None:
            return len(ra) == len(rb) and land(*[mkbool(z3.And(x[0] == y[0], x[1] == y[1])) for x, y in zip(ra, rb)])
    if zero and c != "u":
        a, b = [[] if len(l) == 1 and len(l[0]) == 3 and l[0][1] in (3, 7) and p.valid(eqi(l[0][2], 0)) else l for l in (a, b)]
    return seq_eq(p, a, b)


def prove_same(p, it, got, want, ghost=None, zero=False):
    """Obligations: the sequence `got` declares what `want` declares."""
    a, b = segments(it, got), segments(it, want)
    p.prove("the same main items, once each", len(a) == len(b))
    for x, y in zip(a, b):
        if (x.main is None) != (y.main is None):
            p.prove("the same main items, once each", False)
            continue
        if x.main:
            p.prove("the same main items, in order", x.main[0] == y.main[0] and eqi(x.main[1], y.main[1]))
        done = x.main is not None
        p.prove("the same global items between two main items", seq_eq(p, x.c["g"], y.c["g"]))
        for c, n in (("u", "usages"), ("d", "designators"), ("s", "strings")):
            p.prove("the same %s for every main item" % n, fam_eq(p, c, x.c[c], y.c[c], ghost, zero and done))


def attrs(o, *names):
    if set(o.__dict__) != set(names):
        raise Unsupported("state of another shape: %s" % ", ".join(sorted(o.__dict__)))


def closed(p, tape):
    """The tape of a close(): complete, closed once, nothing after."""
    p.prove("close: the stream below is closed exactly once, last", sum(1 for x in tape if x is CLOSE) == 1 and tape[-1] is CLOSE)
    return [x for x in tape if x is not CLOSE]


def stack_state(p, make):
    """An unknown stack: empty, or anything below a top made by make()."""
    if p.choose(2) == 0:
        return [], None
    rest = Block(p.int("depth", 0), None, lambda it, i: (_ for _ in ()).throw(Unsupported("deep stack")), "outer levels")
    top = make()
    return [rest, top], top

__all__ = [n for n in globals() if not n.startswith("__")]
