"""The HID state machine of hid.py on symbolic items.

Kinds and tags of the items are concrete, values may be symbolic, and a list of
items may contain blocks of local items (a named array of unknown length)."""
from .lib import *


class SMachine:
    def __init__(self, p, it, page=0, rid=None):
        self.p, self.it = p, it
        self.g = {t: p.int("g%d" % t) for t in range(10)}
        if page is not None:
            self.g[0] = page
        if rid is not None:
            self.g[8] = rid
        self.loc = {"u": [], "d": [], "s": []}
        self.events = []
        self.bits = []          # (direction, report id, bits) of every data item

    def clear(self):
        self.loc = {"u": [], "d": [], "s": []}

    def triple(self, x):
        it = self.it
        return it.to_int(it.getattr(x, "kind")), it.to_int(it.getattr(x, "tag")), it.to_int(it.getattr(x, "value"))

    def feed(self, items):
        for x in items:
            if isinstance(x, Derived):
                fam = set()
                for label, elem, pc, out in x.results:
                    if len(out) != 1 or isinstance(out[0], Block):
                        raise Unsupported("block of items of another shape")
                    k, t, v = self.triple(out[0])
                    fam.add((k, t))
                if len(fam) != 1 or next(iter(fam)) not in ((2, 0), (2, 3), (2, 7)):
                    raise Unsupported("block of items of several kinds")
                self.loc[{0: "u", 3: "d", 7: "s"}[next(iter(fam))[1]]].append(x)
                continue
            if isinstance(x, (Block, Maybe)):
                raise Unsupported("block of unknown items")
            self.step(*self.triple(x))

    def step(self, k, t, v):
        if isinstance(k, SymInt) or isinstance(t, SymInt):
            raise Unsupported("item of unknown kind")
        if k == 1:
            if t in (10, 11):
                raise Unsupported("push or pop")
            self.g[t] = v
        elif k == 2:
            if t in (0, 3, 7):
                self.loc[{0: "u", 3: "d", 7: "s"}[t]].append(v)
            else:
                raise Unsupported("range items")
        elif k == 0:
            e = {"tag": t, "value": v, "g": dict(self.g), **self.loc}
            self.clear()
            self.events.append(e)
            if t in (8, 9, 11):
                self.bits.append((t, self.g[8], mkint(zi(self.g[7]) * zi(self.g[9]))))
        else:
            raise Unsupported("reserved item")

    def phys(self, e):
        g = e["g"]
        z = land(eqi(g[3], 0), eqi(g[4], 0))
        return ite(z, g[1], g[3]), ite(z, g[2], g[4])


def only(l, v):
    """the list l is exactly [v] (or [] when v is None)"""
    if v is None:
        return len(l) == 0
    return len(l) == 1 and not isinstance(l[0], Block) and eqi(l[0], v)


def none_or(l, v):
    """l declares index v, 0 meaning none"""
    if has_block(l) or len(l) > 1:
        return False
    return eqi(l[0] if l else 0, v)


class Probe:
    """A member of a container, and a visitor, that only record what is asked of them."""
    _vf_class = True

    def __init__(self, log, name):
        self.log, self.name = log, name

    def _rec(self, what):
        def f(it, *args):
            it.touch(self.log)
            self.log.append((what, self) + args)
        f._vf_native = True
        return f

    @property
    def accept(self):
        return self._rec("accept")

    @property
    def enter(self):
        return self._rec("enter")

    @property
    def leave(self):
        return self._rec("leave")

    @property
    def element(self):
        return self._rec("element")


def streamer_state(p, it, sink):
    """An arbitrary streamer between two elements: the object the constructor makes, with its
    size tables, current report and stack of reports replaced by unknown ones."""
    s = it.call(_streamer.Streamer, (sink,))
    d = s.__dict__
    tabs = [n for n, v in d.items() if isinstance(v, dict) and len(v) == 3 and all(isinstance(x, list) for x in v.values())]
    nums = [n for n, v in d.items() if type(v) is int]
    stacks = [n for n, v in d.items() if isinstance(v, list) and v is not sink]
    if len(tabs) != 1 or len(nums) != 1 or len(stacks) != 1 or sorted(it.to_int(k) for k in d[tabs[0]]) != [8, 9, 11]:
        raise Unsupported("streamer state of another shape")
    for k, l in d[tabs[0]].items():
        p.prove("init: every position starts at 0", len(l) >= 256 and all(type(x) is int and x == 0 for x in l))
    p.prove("init: every direction has positions of its own", len({id(l) for l in d[tabs[0]].values()}) == 3)
    p.prove("init: no report is current", d[nums[0]] == 0 and d[stacks[0]] == [])
    constant(s, *[n for n in d if n not in (tabs[0], nums[0], stacks[0])])
    arrs = {}
    for k in list(d[tabs[0]]):
        a = z3.Array(p.fresh("bits%d" % k), z3.IntSort(), z3.IntSort())
        arrs[it.to_int(k)] = a
        d[tabs[0]][k] = SymList256(a, 256)
    rid = p.int("report", 0, 255, keep=True)
    d[nums[0]] = rid
    outer = p.int("outer", 0, 255)
    depth = Block(p.int("depth", 0), None, lambda it, i: p.int("some report", 0, 255), "outer reports")
    d[stacks[0]][:] = [depth]
    for w in (8, 9, 11):
        p.assume(z3.Select(arrs[w], rid.e) >= 0)

    class St:
        obj, tab, num, stack, block = s, tabs[0], nums[0], stacks[0], depth
        ghost, report = dict(arrs), rid

        @staticmethod
        def rid_now():
            return d[nums[0]]

        @staticmethod
        def stack_now():
            return d[stacks[0]]

        @staticmethod
        def sizes_now():
            return {it.to_int(k): v.arr for k, v in d[tabs[0]].items()}
    return St
