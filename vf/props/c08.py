"""C08: values are filed under their report."""
import ast
import z3
from ..lib import *
from ..exstate import *
from ..exstate import X
from .. import conc, hid, dec, interp
from . import c07

LEVEL = "proof"
TRUSTED = ["vf/interp.py (AST semantics of Python, cross-checked against CPython by selftest)", "vf/hid.py (the HID state machine)", "z3 / cvc5",
           "induction over the nesting of collections: a value is marked with the report id in force (units data), a collection with the ids of its members (unit merge), "
           "and grouping keeps every member, once and in order, below a report of its only id or at its place (unit grouping)"]
ASSUMPTIONS = ["item constructors by their contract (C01), Usage.lookup and UsageRange.from_array by theirs (C10), Value by its (C13)",
               "well-formed: balanced collections, data items inside collections, report ids all 0 or all 1..255",
               "known findings KF3, KF4 of C07 (known_findings.jsonl): the kind of the collection of such a named array and the place of collections after it are not compared"]
RULE = "a case = one descriptor decompiled by the real extractor, its values and collections compared with the HID state machine's; distinct by its JSON text"
QUICK_S, QUICK_N, THOROUGH_S = 12, 1500, 240


def id_attr(x_cls=X):
    """The attribute in which the extractor keeps the report ids of what it files."""
    x = _extractor.Extractor()
    x.currentLevel = _d.Collection(1, None)
    v = _d.Padding(8, 1)
    have = set(v.__dict__)
    x.addValue(v)
    new = set(v.__dict__) - have
    if len(new) != 1:
        raise Unsupported("report ids kept another way")
    return new.pop()


def marked(p, it, st, v, i, count, way, pc):
    """The value is marked with the report id in force, alone."""
    name = id_attr()
    ids = v.__dict__.get(name) if isinstance(v, _d.Value) else None
    ok = isinstance(ids, (SymSet, set)) and getattr(ids, "has", None) is None
    elems = [] if not ok else ids.elems if isinstance(ids, SymSet) else list(ids)
    p.prove("a value is marked with exactly the report id in force", len(elems) >= 1 and mkbool(z3.Implies(pc, z3.And([zi(it.to_int(e)) == st.g[8].e for e in elems]))))


def member(p, it, name, ids, cls):
    """A member with the given ids, not to be looked into further."""
    if cls == "value":
        m = it.call(_d.Padding, (8, p.int("size", 0)))
    else:
        m = it.call(_d.Collection, (named(p, p.int("kind", 0)), None))
        m.members = [Block(p.int("n", 0), None, None, "inner")]
    m.__dict__[name] = ids
    return m


def state_vars(fr, s, it):
    """Variables a loop carries from turn to turn."""
    stores = {n.id for b in s.body for n in ast.walk(b) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
    return sorted(n for n in stores if fr.vars.get(n, interp.FORGOTTEN) is not interp.FORGOTTEN)


# ------------------------------------------------------------------ merge
class MergeLoop:
    """Invariant: the ids gathered so far are those of the members seen so far."""

    def __init__(self, p, level, name):
        self.p, self.level, self.name = p, level, name
        self.entered = 0
        self.seen, self.one, self.all = Opaque("seen"), Opaque("one"), Opaque("all")

    def places(self, fr):
        out = []
        if self.name in self.level.__dict__:
            out.append((self.level.__dict__, self.name))
        for k, v in fr.vars.items():
            if isinstance(v, SymSet) and not any(v is d[n] for d, n in out):
                out.append((fr.vars, k))
        return out

    def for_block(self, it, fr, s, blk):
        p = self.p
        self.entered += 1
        if blk is not self.level.members[0] or self.entered > 1:
            raise Unsupported("another loop")
        places = self.places(fr)
        if not 1 <= len(places) or any(not isinstance(d[n], SymSet) for d, n in places):
            raise Unsupported("ids gathered another way")
        carried = [n for n in state_vars(fr, s, it) if not any(d is fr.vars and n == k for d, k in places) and n not in {t.id for t in ast.walk(s.target) if isinstance(t, ast.Name)}]
        if carried:
            raise Unsupported("loop carries " + ", ".join(carried))
        places = [(d, n) for d, n in places if d[n].elems == []] or places
        p.prove("merge: starts from no id at all", all(d[n].elems == [] for d, n in places))
        if len(places) != 1:
            raise Unsupported("ids gathered in several places")
        d, n = places[0]
        if p.choose(2):
            d[n] = SymSet([self.seen])
            child = member(p, it, self.name, SymSet([self.one]), ("value", "collection")[p.choose(2)])
            ids = child.__dict__[self.name]
            it.assign(s.target, child, fr)
            w = Watch(list(fr.vars.values()), [child, d, d[n], self.level])
            lv = dict(self.level.__dict__)
            st = it.block(s.body, fr)
            w.check()
            if any(self.level.__dict__.get(a) is not b for a, b in lv.items() if a != self.name) or set(self.level.__dict__) - set(lv) - {self.name}:
                raise Unsupported("the level changes")
            if st is not None and st[0] != "continue":
                raise Unsupported("early exit")
            now = d[n]
            p.prove("merge: one turn adds exactly the ids of the member", isinstance(now, SymSet) and set(map(id, now.elems)) == {id(self.seen), id(self.one)})
            p.prove("merge: the member's own ids stay", child.__dict__[self.name] is ids and [id(e) for e in ids.elems] == [id(self.one)])
            raise PathEnd
        d[n] = SymSet([self.all])
        return None

    def while_(self, *a):
        raise Unsupported("merge by another loop")


def unit_merge(report):
    name = id_attr()

    def h(p, it):
        it.symsets = True
        x = it.call(X, ())
        level = it.call(_d.TopLevel, ()) if p.choose(2) else it.call(_d.Collection, (1, None))
        blk = Block(p.int("n", 0), None, None, "members")
        lp = MergeLoop(p, level, name)
        made = []

        def a_member(kind):
            def make(it, i):
                made.append(member(p, it, name, SymSet([lp.one]), kind))
                return made[-1]
            return kind, make
        blk._cases = [a_member("value"), a_member("collection")]
        level.members = [blk]
        if p.choose(2):
            level.__dict__[name] = SymSet([Opaque("stale")])        # merged before, at an earlier end
        it.loop_contracts[X.reportIdMerge.__qualname__] = lp
        it.call_method(x, "reportIdMerge", (level,))
        got = level.__dict__.get(name)
        if not lp.entered:
            # the ids of every member, each in its turn
            d = got.elems[0] if isinstance(got, SymSet) and got.has is None and len(got.elems) == 1 else None
            if not isinstance(d, interp.Derived) or d.src is not blk or any(m.__dict__[name].elems != [lp.one] for m in made):
                raise Unsupported("merge by another loop")
            p.prove("merge: a collection is marked with the ids of all its members, and no other",
                    {r[0] for r in d.results} == {"value", "collection"} and all(r[3] and all(x is lp.one for x in r[3]) for r in d.results))
        else:
            p.prove("merge: a collection is marked with the ids of all its members, and no other", isinstance(got, SymSet) and [id(e) for e in got.elems] == [id(lp.all)])
        p.prove("merge: the members stay", len(level.members) == 1 and level.members[0] is blk)
    run_harness(report, "merge", h, items=True)


# --------------------------------------------------------------- grouping
class GroupLoop:
    """Invariant: what was seen so far is in the result, once and in order; the report being filled, if any,
    is the last member of the result, holds at least one member and has one id."""

    def __init__(self, p, level, name, results):
        self.p, self.level, self.name, self.results = p, level, name, results
        self.entered = 0

    def for_block(self, it, fr, s, blk):
        p, name = self.p, self.name
        self.entered += 1
        if self.entered > 1 or blk is not self.level.members[0]:
            raise Unsupported("another loop")
        r = [v for v in fr.vars.values() if isinstance(v, _d.Hierarchical) and v is not self.level and not isinstance(v, _d.Report)]
        if len({id(v) for v in r}) != 1:
            raise Unsupported("result built another way")
        r = r[0]
        self.r = r
        target = {t.id for t in ast.walk(s.target) if isinstance(t, ast.Name)}
        carried = [n for n in state_vars(fr, s, it) if n not in target]
        if len(carried) > 1 or any(fr.vars[n] is not None for n in carried):
            raise Unsupported("loop carries " + ", ".join(carried))
        p.prove("grouping: starts from an empty result", r.members == [])
        older = Block(p.int("older", 0), None, None, "older")
        if not p.choose(2):
            r.members = self.final = [older]
            for n in carried:
                fr.vars.pop(n)
            return None
        # a turn, from any state the invariant allows
        cur, K = None, None
        state = p.choose(3)
        if state == 0:
            old = [older]
        else:
            K = p.int("id", 0, 255)
            cur = it.call(_d.Report, (K,))
            inner = Block(p.int("filled", 1), None, None, "filled")
            cur.members = [inner]
            old = [older, cur]
        r.members = list(old)
        for n in carried:
            # the report being filled may have been closed by a member of several reports
            fr.vars[n] = cur if state == 1 else None
        if state == 2 and not carried:
            raise PathEnd
        if state == 2:
            old_cur, cur = cur, None
        kind = ("value", "one", "none", "several")[p.choose(4)]
        k = p.int("k", 0, 255)
        if kind in ("value", "one"):
            ids = SymSet([k])
        elif kind == "none":
            ids = SymSet([])
        else:
            ids = SymSet([])
            ids.n = p.int("ids", 2)
            f = z3.Function("in_report", z3.IntSort(), z3.BoolSort())
            ids.has = lambda it, x: mkbool(f(zi(it.to_int(x))))
        m = member(p, it, name, ids, "value" if kind == "value" else "collection")
        minner = list(m.members) if kind != "value" else None
        it.assign(s.target, m, fr)
        w = Watch(list(fr.vars.values()), [m, r, r.members] + ([cur or old_cur, (cur or old_cur).members] if state else []))
        st = it.block(s.body, fr)
        w.check()
        if st is not None and st[0] != "continue":
            p.prove("grouping: every member is looked at", False)
            raise PathEnd
        now = r.members
        keep = len(now) >= len(old) and all(a is b for a, b in zip(now, old))
        p.prove("grouping: what was filed before stays, in order", keep)
        if not keep:
            raise PathEnd
        new = now[len(old):]
        if kind in ("value", "one"):
            last = now[-1] if now else None
            isrep = type(last) is _d.Report
            p.prove("grouping: a member of one report goes below a report, last", isrep and len(new) <= 1)
            if isrep and len(new) <= 1:
                p.prove("grouping: that report has its id", eqi(it.to_int(last.id), k))
                had = [inner] if not new and state else []
                p.prove("grouping: once, after what the report held before", len(last.members) == len(had) + 1 and all(a is b for a, b in zip(last.members, had)) and last.members[-1] is m)
                for n in carried:
                    p.prove("grouping: the report being filled is the last one", fr.vars.get(n) is last or fr.vars.get(n) is None)
        else:
            p.prove("grouping: a collection of no or several reports stays at its place, once, its content grouped", len(new) == 1 and getattr(new[0], "vf_of", None) is m)
            if state:
                p.prove("grouping: the reports filled before stay", len((cur or old_cur).members) == 1)
            for n in carried:
                p.prove("grouping: no report is being filled", fr.vars.get(n) is None)
        if kind != "value":
            p.prove("grouping: the members stay", m.members == minner)
        raise PathEnd

    def while_(self, *a):
        raise Unsupported("grouping by another loop")


def unit_group(report):
    name = id_attr()

    def h(p, it):
        it.symsets = True
        x = it.call(X, ())
        top = p.choose(2)
        kind, u = p.int("kind", 0), None
        if top:
            level = it.call(_d.TopLevel, ())
        else:
            u = abstract_usage(p.int("usage", 0)) if p.choose(2) else None
            level = it.call(_d.Collection, (named(p, kind), u))
        blk = Block(p.int("n", 0), None, None, "members")
        level.members = [blk]
        level.__dict__[name] = SymSet([Opaque("ids")])
        lp = GroupLoop(p, level, name, None)
        q = X.reportInsert.__qualname__
        it.loop_contracts[q] = lp
        fn = X.reportInsert

        # the outer call runs the body; calls made by the body are taken by contract
        def inner(it, args, kwargs):
            arg = args[-1]
            if arg is level:
                raise Unsupported("grouping calls itself on the same level")
            r = it.call(_d.Collection, (getattr(arg, "kind", None), getattr(arg, "usage", None)))
            r.vf_of = arg
            return r
        from ..interp import node_of_code
        it.hooks[fn] = inner
        node, cls = node_of_code(fn.__code__)
        interp.saw(fn)
        r = it.call_node(node, fn.__globals__, None, cls, fn.__defaults__ or (), fn.__kwdefaults__ or {}, (x, level), {}, q)
        if not lp.entered:
            raise Unsupported("grouping by another loop")
        p.prove("grouping: yields the result, complete", r is lp.r and r.members is lp.final)
        p.prove("grouping: yields a new level of the same sort", type(r) is type(level) and r is not level)
        if not top and type(r) is _d.Collection:
            p.prove("grouping: with the same kind and usage", land(eqi(it.to_int(r.kind), kind), (r.usage is None) if u is None else eqi(num(it, r.usage), u.value)))
        p.prove("grouping: the original stays", len(level.members) == 1 and level.members[0] is blk)
    run_harness(report, "grouping", h, items=True)


def unit_end(report):
    """A collection is marked when it is closed, complete; the whole when the description is yielded."""
    def end(p, it):
        contracts(it)
        log, merged = [], []
        st = State(p, it)
        c07.quiet_grouping(it, log)

        def merge(it, args, kwargs):
            merged.append((args[-1], list(args[-1].members)))
        it.hooks[X.reportIdMerge] = merge
        x = st.x
        own = p.choose(2)
        st.outer_opened(strict=not own)
        if own:
            st.opened(st.open + [st.depth()])
        st.send((0, 12), 0)
        if not own:
            p.prove("a collection is marked when it is closed", any(l is st.level and m == [st.members] for l, m in merged))
        if not x.stack:
            p.prove("the description yielded is the whole, grouped", len(log) >= 1 and log[-1] is x.currentLevel and getattr(x.__dict__.get("root"), "vf_of", None) is x.currentLevel)
    run_harness(report, "end", end, items=True)


UNITS = [("merge", unit_merge), ("grouping", unit_group), ("end", unit_end), ("collections", c07.unit_collection)]
for _w in c07.WAYS:
    for _k in ("constant", "array", "variable", "variable buffered"):
        UNITS.append(("%s %s" % (c07.WAYS[_w], _k), c07.unit_data(_w, _k, marked)))


def check(inp):
    ts = [tuple(t) for t in inp["items"]]
    try:
        s = dec.Scan(ts)
    except hid.TooBig:
        return "skip"
    if s.out:
        return "skip"
    want = dec.expected_filed(s.events)
    # C07's known findings that concern collections: the kind of a named array's (KF3), the place of what follows it (KF4)
    if "KF4" in s.kf:
        want = [e for e in want if e[0] == "bits"]
    for binary in (False, True):
        try:
            got = dec.filed(dec.decompile(ts, binary))
        except ValueError as e:
            return str(e)
        if "KF4" in s.kf:
            got = dec.joined(e for e in got if e[0] == "bits")
        if "KF3" in s.kf:
            got = [w if e[0] == w[0] == "coll" and (w[1], e[1]) == (4, 2) and w[2:] == e[2:] else e for e, w in zip(got, want)] + got[len(want):]
        m = dec.diff(dec.joined(want), got)
        if m:
            return m
    return None


gen, smaller = dec.gen, dec.smaller


def fixed(hints):
    for l in dec.fixed_streams():
        yield {"items": l}
