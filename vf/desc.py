"""Descriptions as JSON: building the real objects, and what compiling them must declare.

  ["top", m..]  ["report", id, m..]  ["coll", kind, usage|None, m..]
  ["val", {way, usage, size, flags?, logicalMin?, ..., na?, c?}]  ["pad", way, size]  ["align", way, boundary]

The expectation below is written from the documentation of the description
language, independently of /repo's compiler.
"""
from . import hid, conc
from .conc import _d, _streamer, Sink
from hrdc.usage.usage import Usage as UsageConst, UsageRange
from hrdc.util import NamedConstant

WAYS = (8, 9, 11)


def build(t):
    k = t[0]
    if k == "top":
        return _d.TopLevel(*[build(m) for m in t[1:]])
    if k == "report":
        return _d.Report(t[1], *[build(m) for m in t[2:]])
    if k == "coll":
        u = t[2]
        if isinstance(u, list):
            u = UsageConst.lookup(u[0])
        return _d.Collection(t[1], u, *[build(m) for m in t[3:]])
    if k == "pad":
        return _d.Padding(t[1], t[2])
    if k == "align":
        return _d.Align(t[1], t[2])
    kw = dict(t[1])
    way, u, size, c, na = kw.pop("way"), kw.pop("usage"), kw.pop("size"), kw.pop("c", 0), kw.pop("na", None)
    if c:
        way = {8: _d.Value.Input, 9: _d.Value.Output, 11: _d.Value.Feature}[way]
        if u is not None:
            u = UsageConst.lookup(u)
        if "flags" in kw:
            f = 0
            for n in (1, 2, 4, 8, 16, 32, 64, 128, 256):
                if kw["flags"] & n:
                    f = NamedConstant("f", n) | f
            kw["flags"] = f
    if isinstance(na, list):
        kw["namedArray"] = [UsageConst.lookup(x) if c else x for x in na]
    elif isinstance(na, dict):
        kw["namedArray"] = UsageRange(na["a"], na["b"])
    return _d.Value(way, u, size, **kw)


def compile_(obj):
    s = Sink()
    obj.accept(_streamer.Streamer(s))
    return s.l


def entries(na):
    return list(na) if isinstance(na, list) else list(range(na["a"], na["b"] + 1))


def expect(t):
    """What compiling t must declare: ("coll", kind, usages) ("end",) ("pad", way, rid, bits)
    ("data", way, rid, flags, size, count, log, phys, unit, exp, usages, desig, string) ("const", way, rid, flags, size, count)."""
    out, pos = [], {}

    def pad(way, rid, n):
        if n:
            out.append(("pad", way, rid, n))
            pos[way, rid] = pos.get((way, rid), 0) + n

    def walk(t, rid):
        k = t[0]
        if k == "top":
            for m in t[1:]:
                walk(m, rid)
        elif k == "report":
            for m in t[2:]:
                walk(m, t[1])
        elif k == "coll":
            u = t[2][0] if isinstance(t[2], list) else t[2]
            out.append(("coll", t[1], () if u is None else (u,)))
            for m in t[3:]:
                walk(m, rid)
            out.append(("end",))
        elif k == "pad":
            pad(t[1], rid, t[2])
        elif k == "align":
            pad(t[1], rid, -pos.get((t[1], rid), 0) % t[2] if t[2] > 1 else 0)
        else:
            v = t[1]
            way, u, size, count, na = v["way"], v["usage"], v["size"], v.get("count", 1), v.get("na")
            flags = v.get("flags", 2)
            al = v["alignment"] if v.get("alignment") is not None else min(8, size)
            if al > 1:
                pad(way, rid, -pos.get((way, rid), 0) % al)
            lmin, lmax = v.get("logicalMin", 1), v.get("logicalMax")
            phys = (v.get("physicalMin") or 0, v.get("physicalMax") or 0)
            us = () if not u and not (v.get("c") and u is not None) else (u,)
            has_usage = bool(us)
            if na is not None:
                us2 = tuple(entries(na))
                lmax = lmin + len(us2) - 1
                if not has_usage:
                    flags &= ~2
            pos[way, rid] = pos.get((way, rid), 0) + size * count
            if flags & 1:
                out.append(("const", way, rid, flags, size, count))
                return
            log = (lmin, lmax)
            if phys == (0, 0) or na is not None:
                phys = log
            unit = (v.get("unit", 0), v.get("unitExponent", 0))
            loc = (v.get("designator", 0), v.get("string", 0))
            if na is not None and has_usage:
                out.append(("coll", 2, us))
                out.append(("data", way, rid, flags, size, count, log, phys) + unit + (us2,) + loc)
                out.append(("end",))
            else:
                out.append(("data", way, rid, flags, size, count, log, phys) + unit + (us2 if na is not None else us,) + loc)
    walk(t, 0)
    return out


def actual(items):
    """The same list, read off an item stream by the HID state machine."""
    m = hid.Machine()
    out = []
    for i in items:
        k, tag, v = i if isinstance(i, tuple) else hid.triple(i)
        if k == 0 and tag in WAYS:
            us, ds, ss = m.finish_locals()
            g = lambda t: m.g.get(t, 0)
            log, phys = (g(1), g(2)), (g(3), g(4))
            if phys == (0, 0):
                phys = log
            one = lambda l: l[0] if len(l) == 1 else 0 if not l else tuple(l)
            if v & 1:
                out.append(("const", tag, g(8), v, g(7), g(9)) + ((tuple(us), one(ds), one(ss)) if us or ds or ss else ()))
            else:
                out.append(("data", tag, g(8), v, g(7), g(9), log, phys, g(6), g(5), tuple(us), one(ds), one(ss)))
        elif k == 0 and tag == 10:
            us, ds, ss = m.finish_locals()
            out.append(("coll", v, tuple(us)) + ((tuple(ds), tuple(ss)) if ds or ss else ()))
        elif k == 0 and tag == 12:
            us, ds, ss = m.finish_locals()
            out.append(("end",) + ((tuple(us),) if us else ()))
        m.step(k, tag, v)
    if any(m.l.values()) or m.pend:
        out.append(("dangling locals",))
    return out


def match(exp, act, pads=True):
    """None when act declares exp.  pads=False: ignore how much padding there is."""
    i = 0
    isc = lambda a: a[0] == "const"
    for e in exp:
        if e[0] == "pad":
            if not pads:
                continue
            got = 0
            while got < e[3] and i < len(act) and isc(act[i]) and act[i][1:3] == e[1:3]:
                got += act[i][4] * act[i][5]
                i += 1
            if got != e[3]:
                return "padding of %d bits (item %d) instead of %s" % (got, i, e)
            continue
        if not pads:
            j = i
            while j < len(act) and isc(act[j]) and act[j] != e:
                if len(act[j]) > 6:
                    return "constant item with usages: %s" % (act[j],)
                j += 1
            i = j
        if i >= len(act):
            return "missing %s" % (e,)
        if act[i] != e:
            return "declared %s instead of %s" % (act[i], e)
        i += 1
    while not pads and i < len(act) and isc(act[i]):
        i += 1
    if i != len(act):
        return "unexpected %s" % (act[i],)
    return None


# ------------------------------------------------------------------ generation
def gen_value(rng, hv=(0,)):
    small = lambda: rng.choice([0, 1, 1, 2, 3, 4, 5, 7, 8, 9, 12, 16, 24, 32, rng.randrange(1, 70), rng.choice(conc.SMALL_MINED), abs(rng.choice(hv)) % 300])
    val = lambda: rng.choice([0, 0, 1, -1, 7, 127, -127, 255, 32767, rng.randrange(-40000, 40000), rng.randrange(-2**31, 2**31), rng.choice(conc.MINED), rng.choice(hv)])
    val32 = lambda: max(-2**31, min(2**31 - 1, val()))
    v = {"way": rng.choice((8, 8, 9, 11)), "size": small(), "usage": rng.choice([None, 0, 0x10030, 0x90001, 0x10002, 0x8004e, rng.randrange(1 << 20), rng.randrange(0x10000)])}
    k = rng.random()
    if k < .12:
        v["na"] = [rng.choice([0x90001 + i, rng.randrange(1 << 20)]) for i in range(rng.randrange(1, 6))]
    elif k < .24:
        a = rng.choice([0x90000, 0x70004, rng.randrange(1 << 20)])
        v["na"] = {"a": a, "b": a + rng.choice([0, 1, 2, 5, rng.randrange(40)])}
    else:
        v["logicalMax"] = val32()
    if rng.random() < .6:
        v["logicalMin"] = val32()
    if rng.random() < .4:
        v["flags"] = rng.choice([rng.randrange(512), rng.choice((0, 1, 2, 3, 6, 4, 0x102, 0x42))])
    if rng.random() < .3:
        c = rng.random()
        if c < .8:
            v["physicalMin"] = val32()
        if c > .2:
            v["physicalMax"] = val32()
        if rng.random() < .2 and "logicalMax" in v:
            v["physicalMin"], v["physicalMax"] = v.get("logicalMin", 1), v["logicalMax"]
    if rng.random() < .2:
        v["unit"] = rng.choice([0x11, 0x1001, 0xf011, rng.randrange(1 << 32)])
    if rng.random() < .2:
        v["unitExponent"] = rng.randrange(-8, 8)
    if rng.random() < .1:
        v["designator"] = rng.randrange(256)
    if rng.random() < .1:
        v["string"] = rng.randrange(256)
    if rng.random() < .5:
        v["count"] = small()
    if rng.random() < .5:
        v["alignment"] = rng.choice([0, 1, 2, 3, 4, 7, 8, 8, 12, 16, 32, small()])
    if rng.random() < .4:
        v["c"] = 1
    return ["val", v]


def gen_tree(rng, hints=(), maxn=None):
    hv = [v for n, v in hints[:30]] or [0]
    ids = rng.random() < .6
    n = maxn or rng.choice([1, 2, 3, 4, 6, 9, 14])
    budget = [n]

    def members(depth, inrep):
        out = []
        for _ in range(rng.randrange(0, 5) if depth else rng.randrange(1, 5)):
            if budget[0] <= 0:
                break
            budget[0] -= 1
            c = rng.random()
            if ids and (not inrep or (c < .15 and depth < 5)):
                if c < .25 and depth < 4:
                    out.append(["coll", rng.choice((0, 1, 1, 2, 3, 6, rng.randrange(256))), rng.choice([None, 0x10002, [0x10002], rng.randrange(1 << 20)])] + members(depth + 1, inrep))
                else:
                    out.append(["report", rng.choice((1, 1, 2, 3, 255, rng.randrange(1, 256)))] + members(depth + 1, True))
            elif not ids and c < .04:
                out.append(["report", 0] + members(depth + 1, True))
            elif c < .3 and depth < 5:
                out.append(["coll", rng.choice((0, 1, 1, 2, 3, 6, rng.randrange(256))), rng.choice([None, 0x10002, [0x10002], rng.randrange(1 << 20)])] + members(depth + 1, inrep))
            elif c < .36:
                out.append(["pad", rng.choice(WAYS), rng.randrange(0, 20)])
            elif c < .42:
                out.append(["align", rng.choice(WAYS), rng.choice([0, 1, 2, 4, 8, 8, 16, 32, rng.randrange(40)])])
            else:
                out.append(gen_value(rng, hv))
        return out
    return ["top"] + members(0, False)


def smaller(t):
    """Subtrees removed, one at a time; attributes dropped."""
    if t[0] in ("top", "report", "coll"):
        head = {"top": 1, "report": 2, "coll": 3}[t[0]]
        for i in range(head, len(t)):
            yield t[:i] + t[i + 1:]
        for i in range(head, len(t)):
            if t[i][0] in ("report", "coll"):
                h = 2 if t[i][0] == "report" else 3
                if t[i][0] == "coll":
                    yield t[:i] + t[i][h:] + t[i + 1:]
            for s in smaller(t[i]):
                yield t[:i] + [s] + t[i + 1:]
    elif t[0] == "val":
        for k in t[1]:
            if k not in ("way", "size", "usage", "logicalMax", "na"):
                yield ["val", {a: b for a, b in t[1].items() if a != k}]
