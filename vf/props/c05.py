"""C05: what compiling a description declares."""
import z3
from ..lib import *
from ..smachine import SMachine, Probe, streamer_state, only, none_or
from .. import conc, desc

LEVEL = "proof"
TRUSTED = ["vf/interp.py (AST semantics of Python, cross-checked against CPython by selftest)", "vf/smachine.py, vf/hid.py (the HID state machine)", "z3 / cvc5"]
ASSUMPTIONS = ["descriptions are built with the public constructors; a description either gives no report id (0) at all or puts every value in a report of id 1..255, as HID requires",
               "the physical range, unit and exponent of a named array carry no meaning",
               "attribute values are integers or named constants; values an item cannot hold are refused by the item (C01)"]
RULE = "a case = one description tree compiled and read back by the HID state machine; distinct by its JSON text"
QUICK_S, QUICK_N, THOROUGH_S = 12, 4000, 240
V = _d.Value
WAYS = {8: "Input", 9: "Output", 11: "Feature"}


def give(p, it, kinds, label="usage"):
    k = p.choose(len(kinds))
    k = kinds[k]
    if k == "none":
        return None, None
    v = p.int(label, 0, (1 << 32) - 1, keep=True)
    if k == "int":
        return v, v
    if k == "usage":
        return abstract_usage(v), v
    return named(p, v), v


def value(p, it, way, arr, const):
    """An arbitrary value, and what it was given."""
    w = getattr(V, WAYS[way]) if p.choose(2) else way
    u, uv = give(p, it, ["none", "int", "usage"] if arr != "list" else ["none", "usage", "int"])
    f = p.int("flags", 0, 511, keep=True)
    p.assume(f.e % 2 == (1 if const else 0))
    g = dict(uv=uv, u=u, f=f)
    kw = {"flags": named(p, f) if p.choose(2) else f}
    for n, lo in (("size", 0), ("count", 0), ("unit", 0), ("unitExponent", None), ("designator", 0), ("string", 0), ("logicalMin", None), ("alignment", 0)):
        g[n] = p.int(n, lo, keep=True)
        if n != "size":
            kw[n] = g[n]
    for n in ("unit", "designator", "string", "size", "count"):
        p.assume(g[n].e < (1 << 32))
    g["n"] = None
    if arr == "none":
        g["logicalMax"] = kw["logicalMax"] = p.int("logicalMax", keep=True)
        if p.choose(2):
            g["physicalMin"] = kw["physicalMin"] = p.int("physicalMin", keep=True)
            g["physicalMax"] = kw["physicalMax"] = p.int("physicalMax", keep=True)
    elif arr == "list":
        g["n"] = p.int("entries", 1, keep=True)
        fn = z3.Function("entry", z3.IntSort(), z3.IntSort())

        def entry(it, i):
            it.path.assume(z3.And(fn(zi(i)) >= 0, fn(zi(i)) < (1 << 32)))
            return abstract_usage(SymInt(fn(zi(i))))
        kw["namedArray"] = [Block(g["n"], None, entry, "entries")]
        g["blk"], g["elem"] = kw["namedArray"][0], lambda i: fn(zi(i))
    else:
        a = p.int("first", 0, keep=True)
        b = p.int("last", 0, (1 << 32) - 1, keep=True)
        p.assume(b.e >= a.e)
        kw["namedArray"] = it.call(UsageRange, (a, b))
        g["n"] = mkint(b.e - a.e + 1)
        g["a"] = a
    return it.call(V, (w, u, g["size"]), kw), g


def has_usage(p, it, g):
    return g["u"] is not None and (not isinstance(g["u"], SymInt) or it.truth(g["u"]))


def unit_value(way, arr, const):
    def unit(report):
        def h(p, it):
            sink = SinkList()
            st = streamer_state(p, it, sink)
            e, g = value(p, it, way, arr, const)
            it.call_method(e, "accept", (st.obj,))
            m = SMachine(p, it, rid=st.report)
            m.feed(sink)
            p.prove("current report and enclosing reports unchanged", land(eqi(st.rid_now(), st.report), st.stack_now() == [st.block]))
            p.prove("no page or report change", land(eqi(m.g[0], 0), eqi(m.g[8], st.report)))
            p.prove("no locals left over", not any(m.loc.values()))
            ev = list(m.events)
            usage = has_usage(p, it, g)
            wrapped = arr != "none" and usage and not const
            want = 3 if wrapped else 1
            while len(ev) > want and ev[0]["tag"] in (8, 9, 11) and it.truth(mkbool(zi(ev[0]["value"]) % 2 == 1)):
                x = ev.pop(0)
                p.prove("padding carries no usage", not (x["u"] or x["d"] or x["s"]))
                p.prove("padding is in the value's direction", x["tag"] == way)
            p.prove("one data item, in its collection for a named array with a usage", [x["tag"] for x in ev] == ([10, way, 12] if wrapped else [way]))
            if len(ev) != want:
                return
            x = ev[1] if wrapped else ev[0]
            f = g["f"]
            if arr != "none" and not usage:
                f = mkint(f.e - 2 * ((f.e / 2) % 2))
            p.prove("flags", eqi(x["value"], f))
            p.prove("size", eqi(x["g"][7], g["size"]))
            p.prove("count", eqi(x["g"][9], g["count"]))
            p.prove("report id", eqi(x["g"][8], st.report))
            if const:
                p.prove("constants carry no usage, designator or string", not (x["u"] or x["d"] or x["s"]))
                return
            if wrapped:
                c, end = ev[0], ev[2]
                p.prove("named array: logical collection of its usage", land(eqi(c["value"], 2), only(c["u"], g["uv"]), not c["d"], not c["s"], not end["u"]))
            p.prove("logical minimum", eqi(x["g"][1], g["logicalMin"]))
            p.prove("designator", none_or(x["d"], g["designator"]))
            p.prove("string", none_or(x["s"], g["string"]))
            p.prove("unit", eqi(x["g"][6], g["unit"]))
            p.prove("exponent", eqi(x["g"][5], g["unitExponent"]))
            if arr == "none":
                p.prove("logical maximum", eqi(x["g"][2], g["logicalMax"]))
                p.prove("usage", only(x["u"], g["uv"]) if usage else len(x["u"]) == 0)
                lo, hi = m.phys(x)
                a, b = g.get("physicalMin", 0), g.get("physicalMax", 0)
                z = land(eqi(a, 0), eqi(b, 0))
                p.prove("physical minimum", eqi(lo, ite(z, g["logicalMin"], a)))
                p.prove("physical maximum", eqi(hi, ite(z, g["logicalMax"], b)))
                return
            p.prove("logical maximum of a named array", eqi(x["g"][2], mkint(zi(g["logicalMin"]) + zi(g["n"]) - 1)))
            if not x["u"]:
                p.prove("named array: every entry, once, in order", False)
            if len(x["u"]) != 1 or not isinstance(x["u"][0], Derived):
                raise Unsupported("named array in pieces")
            d = x["u"][0]
            src = d.src
            while isinstance(src, Derived):
                src = src.src
            if arr == "list":
                p.prove("named array: every entry, once, in order", src is g["blk"])
            else:
                i = p.int("i", 0)
                p.assume(i.e < zi(g["n"]))
                src = d.src
                p.prove("named array: every entry, once, in order", land(eqi(src.n, g["n"]), eqi(it.to_int(src.get(it, i)), mkint(g["a"].e + i.e))))
            for label, elem, pc, out in d.results:
                p.prove("named array: usage of the entry", mkbool(z3.Implies(pc, zi(it.to_int(it.getattr(out[0], "value"))) == zi(it.to_int(elem)))))
        run_harness(report, "value", h, items=True)
    return unit


def unit_pads(report):
    for way in WAYS:
        for what in ("pad", "align"):
            def h(p, it):
                sink = SinkList()
                st = streamer_state(p, it, sink)
                n = p.int("bits", 0, (1 << 32) - 1, keep=True)
                e = it.call(_d.Padding if what == "pad" else _d.Align, (way, n))
                it.call_method(e, "accept", (st.obj,))
                m = SMachine(p, it, rid=st.report)
                m.feed(sink)
                p.prove("padding: current report unchanged", land(eqi(st.rid_now(), st.report), st.stack_now() == [st.block], eqi(m.g[8], st.report), eqi(m.g[0], 0)))
                for x in m.events:
                    p.prove("padding declares only constants of its direction, without usages",
                            x["tag"] == way and land(not (x["u"] or x["d"] or x["s"]), mkbool(zi(x["value"]) % 2 == 1)))
                p.prove("padding leaves no locals", not any(m.loc.values()))
            run_harness(report, "padding", h, items=True)


def unit_collection(report):
    def h(p, it):
        sink = SinkList()
        st = streamer_state(p, it, sink)
        u, uv = give(p, it, ["none", "int", "usage", "named"])
        kind = p.int("kind", 0, 255, keep=True)
        k = named(p, kind) if p.choose(2) else kind
        c = it.call(_d.Collection, (k, u))
        m = SMachine(p, it, rid=st.report)
        it.call_method(st.obj, "enter", (c,))
        m.feed(sink)
        p.prove("a collection opens once with its kind and usage, and nothing else",
                len(m.events) == 1 and m.events[0]["tag"] == 10 and land(eqi(m.events[0]["value"], kind), only(m.events[0]["u"], uv), not m.events[0]["d"], not m.events[0]["s"]))
        p.prove("opening a collection changes no report", land(eqi(st.rid_now(), st.report), st.stack_now() == [st.block], eqi(m.g[8], st.report), eqi(m.g[0], 0), not any(m.loc.values())))
        n = len(sink)
        it.call_method(st.obj, "leave", (c,))
        m2 = SMachine(p, it, rid=st.report)
        m2.feed(sink[n:])
        p.prove("a collection closes once, and nothing else", len(m2.events) == 1 and m2.events[0]["tag"] == 12 and not m2.events[0]["u"])
        p.prove("closing a collection changes no report", land(eqi(st.rid_now(), st.report), st.stack_now() == [st.block], eqi(m2.g[8], st.report), eqi(m2.g[0], 0), not any(m2.loc.values())))
    run_harness(report, "collection", h, items=True)

    def top(p, it):
        sink = SinkList()
        st = streamer_state(p, it, sink)
        c = it.call(_d.TopLevel, ())
        it.call_method(st.obj, "enter", (c,))
        it.call_method(st.obj, "leave", (c,))
        p.prove("the top level emits nothing and changes no report", land(sink == [], eqi(st.rid_now(), st.report), st.stack_now() == [st.block]))
    run_harness(report, "top level", top, items=True)


def unit_report(report):
    def h(p, it):
        sink = SinkList()
        st = streamer_state(p, it, sink)
        before = st.sizes_now()
        rid = p.int("id", 0, 255, keep=True)
        # HID: report ids are all zero, or all non-zero; the stream's own id is the current one
        zero = p.choose(2)
        glob = p.int("stream id", 0, 255)
        p.assume(z3.Implies(st.report.e != 0, glob.e == st.report.e))
        if zero:
            p.assume(z3.And(rid.e == 0, st.report.e == 0, glob.e == 0))
        else:
            p.assume(rid.e != 0)
        r = it.call(_d.Report, (rid,))
        it.call_method(st.obj, "enter", (r,))
        m = SMachine(p, it, rid=glob)
        m.feed(sink)
        p.prove("a report gives its id to what it contains", land(eqi(st.rid_now(), rid), eqi(m.g[8], rid)))
        p.prove("entering a report declares nothing", m.events == [] and not any(m.loc.values()) and eqi(m.g[0], 0))
        n = len(sink)
        it.call_method(st.obj, "leave", (r,))
        m2 = SMachine(p, it, rid=rid)
        m2.feed(sink[n:])
        p.prove("leaving a report restores the enclosing one", land(eqi(st.rid_now(), st.report), st.stack_now() == [st.block]))
        p.prove("the stream's id is the enclosing report's again", mkbool(z3.Implies(st.report.e != 0, zi(m2.g[8]) == st.report.e)))
        p.prove("leaving a report declares nothing", m2.events == [] and not any(m2.loc.values()) and eqi(m2.g[0], 0))
        p.prove("reports leave the positions alone", land(*[mkbool(before[w] == a) for w, a in st.sizes_now().items()]))
    run_harness(report, "report", h, items=True)


def unit_traversal(report):
    for cls in ("TopLevel", "Report", "Collection"):
        def h(p, it):
            log = []
            n = p.int("n", 0)
            blk = Block(n, [("member", lambda it, i: Probe(log, "member"))], None, "members")
            args = {"TopLevel": (), "Report": (3,), "Collection": (1, None)}[cls]
            c = it.call(getattr(_d, cls), args)
            it.getattr(c, "members").append(blk)
            vis = Probe(log, "visitor")
            it.call_method(c, "accept", (vis,))
            p.prove(cls + ": enter first", len(log) > 0 and log[0][:1] == ("enter",) and log[0][1] is vis and log[0][2] is c)
            p.prove(cls + ": leave last", len(log) > 0 and log[-1][:1] == ("leave",) and log[-1][1] is vis and log[-1][2] is c)
            mid = log[1:-1]
            if not mid:
                p.prove(cls + ": nothing is skipped", mkbool(n.e == 0))
                return
            ok = len(mid) == 1 and isinstance(mid[0], Derived) and mid[0].src is blk
            p.prove(cls + ": members in between", ok)
            if ok:
                for label, elem, pc, out in mid[0].results:
                    p.prove(cls + ": each member is visited once, by the same visitor",
                            len(out) == 1 and out[0][0] == "accept" and out[0][1] is elem and len(out[0]) == 3 and out[0][2] is vis)
        run_harness(report, cls, h, items=True)
    for mk in (lambda it: it.call(V, (8, None, 4), {"logicalMax": 1}), lambda it: it.call(_d.Padding, (8, 4)), lambda it: it.call(_d.Align, (8, 4))):
        def h(p, it):
            log = []
            e, vis = mk(it), Probe(log, "visitor")
            it.call_method(e, "accept", (vis,))
            p.prove("a value is given to the visitor once", len(log) == 1 and log[0][0] == "element" and log[0][1] is vis and log[0][2] is e)
        run_harness(report, "value", h, items=True)


UNITS = [("traversal", unit_traversal), ("collection", unit_collection), ("report", unit_report), ("padding", unit_pads)]
for _w in WAYS:
    for _a in ("none", "list", "range"):
        for _c in (0, 1):
            UNITS.append(("%s named array %s const %d" % (WAYS[_w], _a, _c), unit_value(_w, _a, _c)))


def check(t):
    items = desc.compile_(desc.build(t))
    return desc.match(desc.expect(t), desc.actual(items), pads=False)


smaller = desc.smaller


def gen(rng, hints):
    return desc.gen_tree(rng, hints)


def fixed(hints):
    base = {"way": 8, "usage": 0x10030, "size": 8, "logicalMax": 127}
    for way in desc.WAYS:
        for k, vals in dict(size=range(0, 66), count=list(range(0, 300, 7)) + [1, 2, 8, 255, 256, 65535, 65536], flags=range(512), logicalMin=[0, 1, -1, -127, -128, -129, 127, 128, -32768, -32769, 32767, -2**31],
                            logicalMax=[0, 1, 127, 128, 255, 256, 32767, 32768, 65535, 2**31 - 1], physicalMin=[0, 1, -1, -128, -129, 5], physicalMax=[0, 1, -1, 127, 128, 9000],
                            unit=[0, 1, 0x11, 0x1001, 0xf011, 0xe121, 0xffffffff], unitExponent=range(-8, 16), designator=range(0, 256, 5), string=range(0, 256, 5),
                            usage=[None, 0, 1, 0xffff, 0x10000, 0x10001, 0xffffffff], alignment=range(0, 40)).items():
            for v in vals:
                for c in (0, 1):
                    yield ["top", ["val", dict(base, way=way, c=c, **{k: v})], ["val", dict(base, way=way)]]
                    if k != "logicalMax":
                        yield ["top", ["val", {kk: vv for kk, vv in dict(base, way=way, c=c, na={"a": 0x90001, "b": 0x90003}, **{k: v}).items() if kk != "logicalMax"}], ["val", dict(base, way=way)]]
    for na in ([5], [0x90001, 0x90003], {"a": 1, "b": 1}, {"a": 0x70000, "b": 0x70200}):
        for u in (None, 0, 0x10039):
            for f in (0, 2, 6, 1, 3, 0x102):
                yield ["top", ["report", 4, ["val", {"way": 8, "usage": u, "size": 8, "na": na, "flags": f, "logicalMin": 0}], ["val", base]]]
    v = ["val", base]
    for a in range(0, 256, 3):
        for b in (1, 7, 255):
            if a:
                yield ["top", ["report", a, v, ["report", b, v, ["report", a, v], v], v], ["report", b, v]]
    for k in range(256):
        for u in (None, 0x10002, [0x10002], 0):
            yield ["top", ["coll", k, u, v, ["coll", 1, u], v]]
