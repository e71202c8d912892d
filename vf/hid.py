"""Reference meaning of a HID item stream (concrete side).

This is the specification the properties are stated against, written from HID
1.11 section 6.2.2 and independent of /repo: it takes (kind, tag, value)
triples of plain integers and yields the list of things the stream declares.

  events(items) -> list of tuples
     ("coll", value, usages, designators, strings)
     ("end",)
     ("ctl", n, direction, report id, flags, size, logical, physical, unit,
             exponent, usage, designator, string)      n adjacent equal controls

Rules (HID 1.11):
 * globals persist, Push/Pop save/restore all of them (Pop on an empty stack is
   ignored), locals last until the next main item;
 * a usage below 0x10000 is completed at the *main* item with the page then in
   force (6.2.2.8); a usage with a page of its own is taken as is;
 * Minimum/Maximum pairs stand for the inclusive run, at the place where the
   pair completes; locals of a Variable item are dealt out to its controls in
   order, the last one being repeated; an Array item carries the whole list;
 * physical bounds 0,0 mean "same as the logical bounds" (6.2.2.7);
 * no designator / no string is index 0.
"""
MAIN, GLOBAL, LOCAL = 0, 1, 2
INPUT, OUTPUT, COLLECTION, FEATURE, ENDCOLLECTION = 8, 9, 10, 11, 12
(USAGE_PAGE, LOGICAL_MIN, LOGICAL_MAX, PHYSICAL_MIN, PHYSICAL_MAX, UNIT_EXPONENT,
 UNIT, REPORT_SIZE, REPORT_ID, REPORT_COUNT, PUSH, POP) = range(12)
USAGE, USAGE_MIN, USAGE_MAX, DESIG, DESIG_MIN, DESIG_MAX = range(6)
STRING, STRING_MIN, STRING_MAX, DELIMITER = 7, 8, 9, 10
CONSTANT, VARIABLE, BUFFERED = 1, 2, 256

FAMILY = {USAGE: ("u", "i"), USAGE_MIN: ("u", "m"), USAGE_MAX: ("u", "M"),
          DESIG: ("d", "i"), DESIG_MIN: ("d", "m"), DESIG_MAX: ("d", "M"),
          STRING: ("s", "i"), STRING_MIN: ("s", "m"), STRING_MAX: ("s", "M"),
          DELIMITER: ("u", "D")}
SIGNED = {LOGICAL_MIN, LOGICAL_MAX, PHYSICAL_MIN, PHYSICAL_MAX, UNIT_EXPONENT}


class TooBig(Exception):
    """A run too long to spell out; the concrete side gives up on this input."""


def triple(i):
    return (int(i.kind), int(i.tag), int(i.value))


class Machine:
    def __init__(self):
        self.g = {}
        self.stack = []
        self.events = []
        self.clear()

    def clear(self):
        self.l = {"u": [], "d": [], "s": []}
        self.pend = {}

    def local(self, tag, v):
        f, k = FAMILY[tag]
        if k == "i":
            self.l[f].append(v)
        elif k == "D":
            self.l[f].append(("delimiter", v))
        else:
            self.pend[f, k] = v
            if (f, "m") in self.pend and (f, "M") in self.pend:
                lo, hi = self.pend.pop((f, "m")), self.pend.pop((f, "M"))
                if f == "u" and (lo >> 16) != (hi >> 16):
                    self.l[f].append(("odd range", lo, hi))
                elif hi - lo > 70000:
                    raise TooBig
                else:
                    self.l[f].extend(range(lo, hi + 1))

    def finish_locals(self):
        page = self.g.get(USAGE_PAGE, 0)
        us = [u if not isinstance(u, int) or u >> 16 else (page << 16) | u for u in self.l["u"]]
        left = sorted((k, v) for k, v in self.pend.items())
        out = us, list(self.l["d"]), list(self.l["s"])
        for (f, k), v in left:
            if f == "u" and not v >> 16:
                v |= page << 16
            out["uds".index(f)].append((k, v))
        return out

    def emit(self, n, ctl):
        if n <= 0:
            return
        e = self.events
        if e and e[-1][0] == "ctl" and e[-1][2:] == ctl:
            e[-1] = ("ctl", e[-1][1] + n) + ctl
        else:
            e.append(("ctl", n) + ctl)

    def step(self, kind, tag, v):
        if kind == GLOBAL:
            if tag == PUSH:
                self.stack.append(dict(self.g))
            elif tag == POP:
                if self.stack:
                    self.g = self.stack.pop()
            else:
                self.g[tag] = v
            return
        if kind == LOCAL:
            self.local(tag, v)
            return
        us, ds, ss = self.finish_locals()
        self.clear()
        if tag == COLLECTION:
            zero = lambda l: () if all(x == 0 for x in l) else tuple(l)
            self.events.append(("coll", v, tuple(us), zero(ds), zero(ss)))
            return
        if tag == ENDCOLLECTION:
            self.events.append(("end",))
            return
        g = lambda t: self.g.get(t, 0)
        log = (g(LOGICAL_MIN), g(LOGICAL_MAX))
        phy = (g(PHYSICAL_MIN), g(PHYSICAL_MAX))
        if phy == (0, 0):
            phy = log
        base = (tag, g(REPORT_ID), v, g(REPORT_SIZE), log, phy, g(UNIT), g(UNIT_EXPONENT))
        n = g(REPORT_COUNT)
        odd = any(not isinstance(x, int) for x in us + ds + ss)
        if odd or not v & VARIABLE:
            zero = lambda l: () if all(x == 0 for x in l) else tuple(l)
            if odd:
                self.events.append(("set", n) + base + (tuple(us), zero(ds), zero(ss)))
            else:
                self.emit(n, base + (tuple(us), zero(ds), zero(ss)))
            return
        pick = lambda l, i: (l[i] if i < len(l) else l[-1]) if l else 0
        m = max(len(us), len(ds), len(ss))
        if m > 100000:
            raise TooBig
        for i in range(min(n, m)):
            self.emit(1, base + (pick(us, i), pick(ds, i), pick(ss, i)))
        if n > m:
            self.emit(n - m, base + (pick(us, m), pick(ds, m), pick(ss, m)))


def run(items):
    m = Machine()
    for i in items:
        m.step(*(i if isinstance(i, tuple) else triple(i)))
    return m


def events(items):
    return run(items).events
