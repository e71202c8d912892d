"""C06: bit positions, alignment and padding of a compiled description."""
import z3
from ..lib import *
from ..smachine import SMachine, streamer_state
from .. import conc, desc
from . import c05

LEVEL = "proof"
TRUSTED = ["vf/interp.py (AST semantics of Python, cross-checked against CPython by selftest)", "vf/smachine.py, vf/hid.py (the HID state machine)", "z3 / cvc5"]
ASSUMPTIONS = ["sizes, counts and alignments are non-negative integers below 2**32; report ids are 0..255, all zero or all non-zero",
               "item constructors by their contract (C01); traversal by its contract (C05)"]
RULE = "a case = one description tree compiled, every data item placed by adding up size times count per direction and report; distinct by its JSON text"
QUICK_S, QUICK_N, THOROUGH_S = 12, 4000, 240
V = _d.Value
WAYS = c05.WAYS


def bits_of(items, p, it, st):
    """Feed the items; returns [(direction, report id, bits, const?)] and the ghost positions after them."""
    m = SMachine(p, it, rid=st.report)
    m.feed(items)
    ghost = dict(st.ghost)
    out = []
    for e, (way, rid, n) in zip([e for e in m.events if e["tag"] in (8, 9, 11)], m.bits):
        out.append((way, rid, n, mkbool(zi(e["value"]) % 2 == 1), z3.Select(ghost[way], zi(rid))))
        ghost[way] = z3.Store(ghost[way], zi(rid), z3.Select(ghost[way], zi(rid)) + zi(n))
    return out, ghost


def invariant(p, it, st, ghost):
    now = st.sizes_now()
    p.prove("positions kept are the bits emitted, in every direction and report", land(*[mkbool(now[w] == ghost[w]) for w in (8, 9, 11)]))
    p.prove("current report unchanged", eqi(st.rid_now(), st.report))


def aligned(p, pos, pad, al):
    """pad is the least number of bits that brings pos to a multiple of al (al >= 1)."""
    pos, pad, al = zi(pos), zi(pad), zi(al)
    q, q2 = pos / al, (-pos) / al
    p.assume(z3.Implies(al > 0, z3.And(pos == al * q + pos % al, pos % al >= 0, pos % al < al)))
    p.assume(z3.Implies(al > 0, z3.And(-pos == al * q2 + (-pos) % al, (-pos) % al >= 0, (-pos) % al < al)))
    return mkbool(z3.And(pad >= 0, pad < al, z3.Or(pos + pad == al * q, pos + pad == al * q + al, pos + pad == -(al * q2))))


def total(pads):
    return mkint(z3.Sum([z3.IntVal(0)] + [zi(x[2]) for x in pads]))


def unit_value(way, arr, const):
    def unit(report):
        def h(p, it):
            sink = SinkList()
            st = streamer_state(p, it, sink)
            size = p.int("size", 0, (1 << 32) - 1, keep=True)
            count = p.int("count", 0, (1 << 32) - 1, keep=True)
            kw = {"flags": (3 if const else 2), "count": count, "logicalMin": 0}
            if not const and p.choose(2):
                kw["physicalMin"], kw["physicalMax"] = 3, 7
            if p.choose(2):
                kw["alignment"] = al = p.int("alignment", 0, (1 << 32) - 1, keep=True)
            else:
                al = mkint(z3.If(size.e < 8, size.e, 8))
            if arr:
                kw["namedArray"] = [0x90001, 0x90002]
            else:
                kw["logicalMax"] = 5
            if p.choose(2):
                kw["designator"], kw["string"], kw["unit"] = 3, 4, 0x11
            e = it.call(V, (getattr(V, WAYS[way]), UsageConst.lookup(0x10030) if p.choose(2) else None, size), kw)
            it.call_method(e, "accept", (st.obj,))
            bits, ghost = bits_of(sink, p, it, st)
            invariant(p, it, st, ghost)
            p.prove("only the value's own direction and report grow", land(*[land(b[0] == way, eqi(b[1], st.report)) for b in bits]))
            p.prove("the value is emitted", len(bits) >= 1)
            if not bits:
                return
            pads, val = bits[:-1], bits[-1]
            p.prove("what precedes a value is constant padding", land(*[b[3] for b in pads]))
            p.prove("a value occupies size times count bits", eqi(val[2], mkint(size.e * count.e)))
            pos = z3.Select(st.ghost[way], st.report.e)
            pad = total(pads)
            if it.truth(mkbool(zi(al) > 1)):
                p.prove("padding before a value is the least that aligns it", aligned(p, pos, pad, al))
            else:
                p.prove("a value without alignment is not padded", eqi(pad, 0))
            p.prove("no empty padding", land(*[mkbool(zi(b[2]) > 0) for b in pads]))
            p.prove("the value starts after the padding", mkbool(val[4] == pos + zi(pad)))
        run_harness(report, "value", h, items=True)
    return unit


def unit_pads(report):
    for way in WAYS:
        def h(p, it):
            sink = SinkList()
            st = streamer_state(p, it, sink)
            n = p.int("bits", 0, (1 << 32) - 1, keep=True)
            e = it.call(_d.Padding, (way, n))
            it.call_method(e, "accept", (st.obj,))
            bits, ghost = bits_of(sink, p, it, st)
            invariant(p, it, st, ghost)
            p.prove("padding is constant, in its direction and report", land(*[land(b[0] == way, eqi(b[1], st.report), b[3]) for b in bits]))
            p.prove("padding inserts exactly the bits asked for", eqi(total(bits), n))
        run_harness(report, "padding", h, items=True)

        def a(p, it):
            sink = SinkList()
            st = streamer_state(p, it, sink)
            n = p.int("boundary", 0, (1 << 32) - 1, keep=True)
            e = it.call(_d.Align, (way, n))
            it.call_method(e, "accept", (st.obj,))
            bits, ghost = bits_of(sink, p, it, st)
            invariant(p, it, st, ghost)
            p.prove("alignment is constant, in its direction and report", land(*[land(b[0] == way, eqi(b[1], st.report), b[3]) for b in bits]))
            if it.truth(mkbool(n.e > 1)):
                p.prove("an alignment request inserts the least that reaches the boundary", aligned(p, z3.Select(st.ghost[way], st.report.e), total(bits), n))
            else:
                p.prove("an alignment request to 0 or 1 inserts nothing", eqi(total(bits), 0))
        run_harness(report, "align", a, items=True)


def unit_containers(report):
    def h(p, it):
        sink = SinkList()
        st = streamer_state(p, it, sink)
        k = p.choose(3)
        e = it.call([_d.TopLevel, _d.Report, _d.Collection][k], [(), (p.int("id", 0, 255),), (1, 0x10002)][k])
        it.call_method(st.obj, "enter", (e,))
        it.call_method(st.obj, "leave", (e,))
        m = SMachine(p, it, rid=st.report)
        m.feed(sink)
        p.prove("containers occupy no bits", m.bits == [])
        now = st.sizes_now()
        p.prove("containers leave every position alone", land(*[mkbool(now[w] == st.ghost[w]) for w in now]))
    run_harness(report, "containers", h, items=True)


UNITS = [("padding", unit_pads), ("containers", unit_containers), ("report", c05.unit_report), ("traversal", c05.unit_traversal)]
for _w in WAYS:
    for _a in (0, 1):
        for _c in (0, 1):
            UNITS.append(("%s array %d const %d" % (WAYS[_w], _a, _c), unit_value(_w, _a, _c)))


def check(t):
    exp = desc.expect(t)
    act = desc.actual(desc.compile_(desc.build(t)))
    e = [(x[0] == "pad", x[1], x[2], x[3] if x[0] == "pad" else x[4] * x[5]) for x in exp if x[0] in ("pad", "data", "const")]
    a = [(x[0] == "const", x[1], x[2], x[4] * x[5]) for x in act if x[0] in ("data", "const")]
    i = 0
    pos = {}
    for pad, way, rid, n in e:
        if pad:
            got = 0
            while got < n and i < len(a) and a[i][0] and a[i][1:3] == (way, rid):
                got += a[i][3]
                i += 1
            if got != n:
                return "at bit %d of report %d direction %d: %d bits of padding, not %d" % (pos.get((way, rid), 0), rid, way, got, n)
        else:
            if i >= len(a) or a[i][1:] != (way, rid, n):
                return "at bit %d of report %d direction %d: %s instead of %d bits" % (pos.get((way, rid), 0), rid, way, a[i][1:] if i < len(a) else None, n)
            i += 1
        pos[way, rid] = pos.get((way, rid), 0) + n
    if i != len(a):
        return "more bits than described: %s" % (a[i:],)
    return None


smaller = desc.smaller


def gen(rng, hints):
    return desc.gen_tree(rng, hints)


def fixed(hints):
    v = lambda size, **k: ["val", dict({"way": 8, "usage": 0x10030, "size": size, "logicalMax": 1}, **k)]
    for a in range(0, 34):
        for b in range(0, 34):
            yield ["top", v(a), v(b)]
            yield ["top", v(a, count=3), ["align", 8, b], v(1)]
            yield ["top", ["report", 7, v(a, alignment=b), v(3), v(2, alignment=b)], ["report", 8, v(a, alignment=b)]]
    for a in (1, 3, 8, 11, 33):
        for n in (0, 1, 2, 5, 7, 8, 9, 31, 32, 64, 255, 256, 1000):
            for al in (0, 1, 2, 3, 8, 16, 32, 64, 100):
                for way in desc.WAYS:
                    yield ["top", ["pad", way, n], ["pad", 8, 3], v(a, way=way, alignment=al, count=n), ["align", way, al], v(5, way=way), v(5, way=8)]
                    yield ["top", v(a, way=way, count=n, flags=3, alignment=al), v(9, way=way, na=[1, 2]) if 0 else v(9, way=way), v(1, way=way, alignment=al)]
    for i in range(1, 256, 2):
        yield ["top", ["report", i, v(3), ["report", 256 - i, v(5), v(8)], v(8)], ["report", i, v(8)], ["report", 256 - i, v(8)]]
