"""Decompilation, concrete side: descriptors as lists of [kind, tag, value], the real extractor,
dumper and compiler, and what their results must declare (by hid.py)."""
import io
from . import hid, conc
from .conc import _d, _extractor, _streamer, _dumper, _parser, Sink, mk, spec_bytes
from hrdc.usage.usage import Usage as UsageConst, UsageRange, NAry

WAYS = (8, 9, 11)
SIZE_LIMIT = 4000


class Scan:
    """Where the descriptor stands with respect to the scope of the properties."""

    def __init__(self, ts):
        self.out = None             # why it is not well-formed
        self.kf = []                # known findings it runs into
        self.items = []
        self.named = []             # the usages of every named array with a usage of its own
        m = hid.Machine()
        levels = []                 # [kind, usage, members, named array seen]
        rids = set()
        total = 0
        for t in ts:
            k, tag, v = t
            if k == 0:
                us, ds, ss = m.finish_locals()
                if any(not isinstance(x, int) for x in us + ds + ss):
                    if any(isinstance(x, tuple) and x[0] == "delimiter" for x in us):
                        self.kf.append("KF5")
                    else:
                        self.out = "locals"
                if tag != 12 and levels and levels[-1][3]:
                    self.kf.append("KF4")
                if tag == 10:
                    if len(us) > 1:
                        self.out = "several usages of a collection"
                    if levels:
                        levels[-1][2] += 1
                    levels.append([v, us[0] if us else None, 0, False])
                elif tag == 12:
                    if not levels:
                        self.out = "unbalanced"
                    else:
                        levels.pop()
                else:
                    g = lambda n: m.g.get(n, 0)     # noqa: E731
                    if not levels:
                        self.out = "data item outside any collection"
                        levels.append([1, None, 0, False])
                    if v > 511:
                        self.out = "flags"
                    rids.add(g(8))
                    n = g(9)
                    total += n * (1 if v & 256 or v & 1 else 1 + len(us))
                    lv = levels[-1]
                    span = g(2) - g(1) + 1
                    if not v & 1:
                        if span < 1:
                            self.out = "logical range"
                        multi = len(ds) > 1 or len(ss) > 1
                        own = lv[2] == 0 and n == 1 and len(us) == span and ((v == 2 and lv[0] == 4 and lv[1]) or (lv[0] == 2 and lv[1] in nary()))
                        plain = not own and not v & 2 and len(us) == span
                        if own or plain:
                            lo, hi = g(3), g(4)
                            if (lo, hi) not in ((0, 0), (g(1), g(2))) or g(5) or g(6):
                                self.out = "physical range or unit of a named array"
                            if multi and not v & 2:
                                self.kf.append("KF1")
                            lv[3] = lv[3] or own
                            if own:
                                self.named.append(list(us))
                            if own and lv[0] == 4:
                                self.kf.append("KF3")
                        elif not v & 2 and (len(us) > 1 or multi):
                            self.kf.append("KF1")
                    lv[2] += 1 if n or v & 1 else 0
            m.step(*t)
        if levels:
            self.out = "unbalanced"
        if not any(t[:2] == (0, 10) for t in ts):
            self.out = "no collection"
        if not (rids <= {0} or (0 not in rids and all(1 <= r <= 255 for r in rids))):
            self.out = "report ids"
        if total > SIZE_LIMIT:
            self.out = "size"
        self.known = self.kf[0] if self.kf else None
        self.events = m.events


def decompile(ts, binary=False):
    e = _extractor.Extractor()
    if binary:
        _parser.Parser.get("binary")(io.BytesIO(b"".join(spec_bytes(*t) for t in ts)), e).read()
    else:
        for t in ts:
            e.append(mk(t))
        e.close()
    return e.root


def named_arrays(e):
    """The usages of every named array with a usage, in order."""
    if hasattr(e, "members"):
        return [n for m in e.members for n in named_arrays(m)]
    return [[int(u) for u in e.namedArray]] if getattr(e, "namedArray", None) and e.usage is not None else []


def compile_(root):
    s = Sink()
    root.accept(_streamer.Streamer(s))
    return s.triples()


def dump(root):
    o = io.StringIO()
    root.accept(_dumper.Dumper(o))
    return o.getvalue()


def run_source(src):
    ns = {"__name__": "decompiled"}
    exec(compile(src, "<decompiled>", "exec"), ns)
    return ns


def output(f):
    """What a program without arguments of its own prints when it does f, and how it ends."""
    import contextlib
    import io
    import sys
    out, was = io.StringIO(), sys.argv
    sys.argv = ["program", "-N", "-o", "hex"]
    try:
        with contextlib.redirect_stdout(out):
            f()
    except (Exception, SystemExit) as e:
        return out.getvalue(), type(e).__name__
    finally:
        sys.argv = was
    return out.getvalue(), None


def run_program(src):
    """What the source text prints when it is run as a program, what compiling its description by the
    program of the library prints, and what the text prints when it is imported."""
    from hrdc.descriptor import compiler
    code = compile(src, "<decompiled>", "exec")
    ns = {"__name__": "__main__"}
    program = output(lambda: exec(code, ns))
    return program, output(lambda: compiler.compile_main(ns["descriptor"])), output(lambda: exec(code, {"__name__": "decompiled"}))


def norm(events):
    """Constants are nothing but bits; what collections have beyond kind and usage does not count."""
    out = []
    for e in events:
        if e[0] == "coll":
            e = e[:3]
        elif e[0] in ("ctl", "set") and e[4] & 1:
            e = ("pad", e[1] * e[5]) + e[2:4]
            if not e[1]:
                continue
            if out and out[-1][0] == "pad" and out[-1][2:] == e[2:]:
                out[-1] = ("pad", out[-1][1] + e[1]) + e[2:]
                continue
        out.append(e)
    return out


def beside(a, b, kf):
    """The two declarations of a descriptor that runs into known findings, without what these
    lose: KF1 what an array has several of, KF3 the kind of a named array's collection, KF4 the
    place of collections, KF5 the usages of a set of alternatives."""
    def flat(l):
        out = []
        for e in l:
            if e[0] in ("ctl", "set"):
                if e[1] > SIZE_LIMIT:
                    raise hid.TooBig
                out.extend(["ctl", 1] + list(e[2:]) for _ in range(e[1]))
            elif e[0] in ("coll", "end"):
                if "KF4" not in kf:
                    out.append(list(e))
            elif out and out[-1][0] == "pad" and out[-1][2:] == list(e[2:]):
                out[-1] = [e[0], out[-1][1] + e[1]] + out[-1][2:]
            else:
                out.append(list(e))
        return out
    a, b = flat(a), flat(b)
    for x, y in zip(a, b):
        if x[0] == y[0] == "ctl":
            odd = "KF5" in kf and not isinstance(x[10], int) and any(not isinstance(u, int) for u in x[10])
            array = not x[4] & 2
            span = x[6][1] - x[6][0] + 1
            for i in (10, 11, 12):
                many = isinstance(x[i], tuple) and len(x[i]) > 1
                if odd or array and many and not (i == 10 and len(x[i]) == span):
                    x[i] = y[i] = None
        elif x[0] == y[0] == "coll" and "KF3" in kf and x[1] == 4 and y[1] == 2:
            y[1] = 4
    return a, b


def diff(a, b):
    for i, (x, y) in enumerate(zip(a, b)):
        if x != y:
            return "#%d %s instead of %s" % (i, y, x)
    if len(a) != len(b):
        return "%d declarations instead of %d; first %s" % (len(b), len(a), (a + b)[min(len(a), len(b))] if len(a) > len(b) else b[len(a)])
    return None


# ------------------------------------------------------------------ trees
def filed(root):
    """("coll", kind, usage) ("end",) ("bits", report id, way, bits), values in order with the
    report they are below; raises ValueError when a value is below reports of different ids."""
    out = []

    def bits(rid, way, n):
        if out and out[-1][:3] == ("bits", rid, way):
            out[-1] = ("bits", rid, way, out[-1][3] + n)
        elif n:
            out.append(("bits", rid, way, n))

    def walk(e, rids):
        if isinstance(e, _d.Report):
            rids = rids + [int(e.id)]
            for m in e.members:
                walk(m, rids)
            return
        if isinstance(e, _d.TopLevel):
            for m in e.members:
                walk(m, rids)
            return
        if isinstance(e, _d.Collection):
            out.append(("coll", int(e.kind), None if e.usage is None else int(e.usage)))
            for m in e.members:
                walk(m, rids)
            out.append(("end",))
            return
        if not rids:
            raise ValueError("a value is not below a report")
        if len(set(rids)) != 1:
            raise ValueError("a value is below reports %s" % rids)
        if e.namedArray and e.usage is not None:
            out.append(("coll", 2, int(e.usage)))
        bits(rids[-1], int(e.way), int(e.size) * int(e.count))
        if e.namedArray and e.usage is not None:
            out.append(("end",))
    walk(root, [])
    return out


def expected_filed(events):
    out = []
    for e in events:
        if e[0] == "coll":
            out.append(("coll", e[1], e[2][0] if e[2] else None))
        elif e[0] == "end":
            out.append(e)
        else:
            n = e[1] * e[5]
            if out and out[-1][:3] == ("bits", e[3], e[2]):
                out[-1] = out[-1][:3] + (out[-1][3] + n,)
            elif n:
                out.append(("bits", e[3], e[2], n))
    return out


def joined(filed):
    out = []
    for e in filed:
        if e[0] == "bits" and out and out[-1][:3] == e[:3]:
            out[-1] = e[:3] + (out[-1][3] + e[3],)
        else:
            out.append(e)
    return out


ATTRS = ("way", "usage", "size", "flags", "logicalMin", "logicalMax", "physicalMin", "physicalMax", "unit", "unitExponent",
         "designator", "string", "count", "alignment")


def shape(e):
    """A description as plain data."""
    num = lambda v: None if v is None else int(v)       # noqa: E731
    if isinstance(e, _d.TopLevel):
        return ["top"] + [shape(m) for m in e.members]
    if isinstance(e, _d.Report):
        return ["report", int(e.id)] + [shape(m) for m in e.members]
    if isinstance(e, _d.Collection):
        return ["coll", int(e.kind), num(e.usage)] + [shape(m) for m in e.members]
    d = {a: num(getattr(e, a)) for a in ATTRS}
    if isinstance(e, _d.Padding):
        return ["pad", d["way"], d["size"], d["flags"]]
    if isinstance(e, _d.Align):
        return ["align", d["way"], int(e.boundary), d["flags"]]
    d["usage"] = d["usage"] or None
    na = e.namedArray
    d["namedArray"] = [int(u) for u in na] if na else None
    d["range"] = isinstance(na, UsageRange)
    if na:                              # no meaning for a named array
        for a in ("physicalMin", "physicalMax"):
            d.pop(a)
    return ["val", d]


# ------------------------------------------------------------------ generation
_nary = []


def nary():
    if not _nary:
        _nary.extend(sorted(v for v, u in UsageConst.reverse.items() if NAry in u.kinds))
    return _nary


_known = []


def some_usages():
    if not _known:
        _known.extend(sorted(UsageConst.reverse))
    return _known


def gen_stream(r, hints=()):
    """A well-formed descriptor, as a rule."""
    hv = [v for _, v in hints if isinstance(v, int)] or [0]
    out = []
    ids = r.random() < .5
    idset = r.choice([[1], [1, 2], [1, 2, 3], [r.randrange(1, 256) for _ in range(3)]])
    depth = 0
    g = {}
    stack = []
    style = r.random()

    def glob(t, v):
        g[t] = v
        out.append((1, t, v))

    def usage_items(us, fam=(0, 1, 2)):
        i = 0
        while i < len(us):
            j = i
            while j + 1 < len(us) and us[j + 1] == us[j] + 1 and us[j + 1] >> 16 == us[j] >> 16:
                j += 1
            if j > i and r.random() < .7:
                pair = [(2, fam[1], us[i]), (2, fam[2], us[j])]
                if r.random() < .15:
                    pair.reverse()
                out.extend(pair)
            else:
                out.extend((2, fam[0], u) for u in us[i:j + 1])
            i = j + 1

    def short(us):
        """usages relying on the page"""
        pages = {u >> 16 for u in us}
        if len(pages) == 1 and r.random() < .5:
            pg = pages.pop()
            early = r.random() < .7
            if early:
                glob(0, pg)
            usage_items([u & 0xffff for u in us])
            if not early:
                glob(0, pg)
        elif r.random() < .1 and g.get(0):
            usage_items([u if u >> 16 != g[0] or r.random() < .5 else u & 0xffff for u in us])
        else:
            usage_items(us)

    def usage():
        return r.choice([0x10001, 0x10002, 0x10030, 0x8004e, 0x90001, 0x70004, 0x20001, r.choice(some_usages()), r.randrange(1 << 32) | 0x10000, r.randrange(0x20) << 16 | r.randrange(0x200) | 0x10000])

    def num():
        return r.choice([0, 0, 1, -1, 5, 127, -127, -128, 255, 32767, r.randrange(-300, 300), r.randrange(-2**31, 2**31), max(-2**31, min(2**31 - 1, r.choice(conc.MINED))), max(-2**31, min(2**31 - 1, r.choice(hv)))])

    def collection():
        nonlocal depth
        if style < .5 and depth and r.random() < .5:
            u, kind = r.choice([r.choice(nary()), 0x8004e, 0x8003c]), r.choice([2, 2, 2, 4, 1])
        else:
            u, kind = usage(), r.choice([0, 1, 1, 2, 2, 3, 4, 5, 6, r.randrange(256)]) if depth else r.choice([1, 1, 1, 0, r.randrange(300)])
        if r.random() < .93:
            short([u])
        if r.random() < .05:
            out.append((2, 7, r.randrange(1, 9)))
        out.append((0, 10, kind))
        depth += 1

    def locals_(fam, n):
        c = r.random()
        if c < .6:
            l = [r.randrange(0, 9)]
        elif c < .8:
            a = r.randrange(0, 9)
            l = list(range(a, a + r.randrange(1, 5)))
        else:
            l = [r.randrange(0, 300) for _ in range(r.randrange(1, 4))]
        usage_items(l, fam)

    def data():
        f = r.choice([2, 2, 2, 2, 2, 6, 0, 0, 0, 4, 1, 3, 1, 0x102, 0x100, 0x42, r.randrange(512)])
        array = not f & 2
        if ids and (8 not in g or not g[8] or r.random() < .2):
            glob(8, r.choice(idset))
        if r.random() < .75 or 2 not in g or g[2] < g.get(1, 0):
            lo = r.choice([0, 0, 0, 1, 1, -1, -127, num()])
            hi = r.choice([1, 1, 2, 7, 127, 255, num(), lo + r.randrange(0, 9)])
            lo, hi = min(lo, hi), max(lo, hi)
            for t, v in r.sample([(1, lo), (2, hi)], 2):
                glob(t, v)
        span = g.get(2, 0) - g.get(1, 0) + 1
        if r.random() < .25:
            k = r.random()
            a, b = (0, 0) if k < .4 else (g.get(1, 0), g.get(2, 0)) if k < .6 else (num(), num())
            glob(3, a)
            if r.random() < .9:
                glob(4, b)
        if r.random() < .15:
            glob(6, r.choice([0, 0x11, 0x12, 0x1001, 0xf011, 0x1003, r.randrange(1 << 32), r.randrange(1 << 16)]))
        if r.random() < .15:
            glob(5, r.choice([0, 0, 1, -2, 15, r.randrange(-8, 8)]))
        if r.random() < .7 or 7 not in g:
            glob(7, r.choice([1, 1, 2, 3, 4, 5, 7, 8, 8, 9, 12, 16, 24, 32, r.randrange(1, 40), 0 if r.random() < .1 else 8]))
        if r.random() < .8 or 9 not in g:
            glob(9, r.choice([1, 1, 1, 2, 3, 5, 8, 0 if r.random() < .3 else 1, r.randrange(20)]))
        c = r.random()
        n = g[9]
        base = usage()
        if array and c < .7 and 1 <= span <= 300:
            us = [base + i for i in range(span)] if r.random() < .7 else [r.choice([base + i, usage()]) for i in range(span)]
        elif c < .3 and 1 <= span <= 40:
            us = [base + i for i in range(span)]
        elif c < .5:
            us = [base]
        elif c < .7:
            us = [base + i for i in range(max(1, n))]
        elif c < .9:
            us = [usage() for _ in range(r.randrange(1, 5))]
        else:
            us = []
        us = [u for u in us if u < 1 << 32]
        if array and len(us) == span:
            if r.random() < .9:
                for t in (3, 4, 5, 6):
                    if g.get(t):
                        glob(t, 0)
        fams = [lambda: short(us)]
        if r.random() < .12:
            fams.append(lambda: locals_((3, 4, 5), n))
        if r.random() < .12:
            fams.append(lambda: locals_((7, 8, 9), n))
        r.shuffle(fams)
        for x in fams:
            x()
        out.append((0, r.choice((8, 8, 8, 9, 11)), f))

    def end():
        # local items count for the end of a collection too, and go with it
        nonlocal depth
        if r.random() < .06:
            r.choice([lambda: short([usage()]), lambda: locals_((3, 4, 5), 1), lambda: locals_((7, 8, 9), 1)])()
        out.append((0, 12, 0))
        depth -= 1

    collection()
    for _ in range(r.choice([1, 2, 3, 4, 6, 9, 14])):
        c = r.random()
        if not depth or (c < .15 and depth < 6):
            collection()
        elif c < .27:
            end()
        elif c < .33 and ids:
            glob(8, r.choice(idset))
        elif c < .37:
            out.append((1, 10, 0))
            stack.append(dict(g))
        elif c < .42 and (stack or r.random() < .1):
            out.append((1, 11, 0))
            if stack:
                g.clear()
                g.update(stack.pop())
        else:
            data()
            if style < .5 and depth > 1 and r.random() < .5:
                end()
    out += [(0, 12, 0)] * depth
    return out


def gen(r, hints):
    if r.random() < .15:
        from . import desc
        try:
            t = desc.gen_tree(r, [h for h in hints if isinstance(h[1], int)])
            l = [hid.triple(i) for i in desc.compile_(desc.build(["top", ["coll", 1, 0x10002] + t[1:]]))]
            return {"items": [list(x) for x in l]}
        except Exception:       # noqa: BLE001 - a description the compiler refuses
            pass
    return {"items": [list(x) for x in gen_stream(r, hints)]}


def smaller(inp):
    l = inp["items"]
    for n in (16, 8, 4, 2, 1):
        for i in range(0, len(l), n):
            yield {"items": l[:i] + l[i + n:]}
    # a collection and its end
    st = []
    for i, t in enumerate(l):
        if t[:2] == [0, 10]:
            st.append(i)
        elif t[:2] == [0, 12] and st:
            j = st.pop()
            yield {"items": l[:j] + l[j + 1:i] + l[i + 1:]}
            yield {"items": l[:j] + l[i + 1:]}
    for i, t in enumerate(l):
        for v in (0, 1, t[2] & 0xffff, t[2] // 2):
            if t[2] != v and abs(v) < abs(t[2]):
                yield {"items": l[:i] + [[t[0], t[1], v]] + l[i + 1:]}


def x30():
    return [[2, 0, 0x10030], [0, 8, 2]]


def fixed_streams():
    A = [[2, 0, 0x10002], [0, 10, 1]]
    E = [[0, 12, 0]]
    d = [[1, 1, 0], [1, 2, 1], [1, 7, 1], [1, 9, 8]]
    for f in range(512):
        for us in ([[2, 1, 0x90001], [2, 2, 0x90008]], [[2, 0, 0x90001]], []):
            if not f & 2 and len(us) == 2:
                continue
            yield A + d + us + [[0, 8, f]] + E
    for way in WAYS:
        for size in list(range(0, 34)):
            for off in (0, 1, 3, 8, 12):
                pre = [[1, 1, 0], [1, 2, 1], [1, 7, off], [1, 9, 1], [2, 0, 0x90001], [0, way, 2]] if off else []
                yield A + pre + [[1, 1, 0], [1, 2, 1], [1, 7, size], [1, 9, 3], [2, 0, 0x10030], [2, 0, 0x10031], [0, way, 2]] + E
    for kind in range(0, 130):
        yield A + [[2, 0, 0x10001], [0, 10, kind]] + d + [[2, 1, 0x90001], [2, 2, 0x90008], [0, 8, 2]] + E + E
    for u in nary():
        for f in (0, 2, 4, 6, 0x40, 0x100):
            for lo in (0, 1, 5):
                yield A + [[2, 0, u], [0, 10, 2], [1, 1, lo], [1, 2, lo + 2], [1, 7, 8], [1, 9, 1], [2, 0, u], [2, 1, 0x90001], [2, 2, 0x90002], [0, 11, f]] + E + E
    for unit in [0, 1, 0x11, 0x12, 0x13, 0x14, 0x21, 0xf011, 0x1001, 0x1003, 0xe011, 0x10001, 0x100001, 0x1000001, 0x00f0d121, 0x7, 0x8, 0xffffffff] + [n << 4 * k | s for n in range(16) for k in range(1, 8) for s in (0, 1, 2, 3, 4, 15)]:
        yield A + d + [[1, 6, unit], [2, 0, 0x10030], [0, 8, 2]] + E
    for a in range(0, 4):
        for b in range(0, 4):
            for c in range(0, 4):
                ids = [x + 1 for x in (a, b, c)]
                one = lambda i: [[1, 8, i], [2, 0, 0x90001 + i], [0, 8, 2]]     # noqa: E731
                coll = lambda *m: [[2, 0, 0x10001], [0, 10, 0]] + [y for x in m for y in x] + E     # noqa: E731
                yield A + d + one(ids[0]) + one(ids[1]) + one(ids[2]) + E
                yield A + d + one(ids[0]) + coll(one(ids[1])) + one(ids[2]) + E
                yield A + d + coll(one(ids[0])) + coll(one(ids[1]), one(ids[2])) + E
                yield A + d + coll(coll(one(ids[0])), one(ids[1])) + coll() + one(ids[2]) + E
                yield A + d + one(ids[0]) + E + A + one(ids[1]) + coll(one(ids[2])) + E
    # collections within that of a named array
    arr = [[2, 0, nary()[0]], [0, 10, 2], [1, 1, 0], [1, 2, 1], [1, 7, 8], [1, 9, 1], [2, 0, 0x70004], [2, 0, 0x70005], [0, 8, 0]]
    for inner in ([[0, 10, 0]] + E, [[0, 10, 0]] + x30() + E, arr + E, arr + arr + E + E, [[0, 10, 0]] + arr + E + E, arr + E + arr + E, [[0, 10, 0]] + E + x30()):
        for after in ([], x30(), [[0, 10, 0]] + x30() + E):
            yield A + arr + inner + E + after + E
            yield arr + inner + E + A + x30() + E
