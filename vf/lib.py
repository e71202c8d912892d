"""Shared pieces of the contracts: interpreter set-up, abstract objects, helpers."""
import z3
from . import sym, conc
from .sym import (SymInt, SymBool, SymStr, SymBytes, Unsupported, PathEnd, Opaque, Dec, HexP, mkint, mkbool, zi, zb,
                  land, lor, lnot, ite, Report, explore)
from .interp import Interp, Block, Derived, SymDict, SymSet, SymList256, SymRange, SinkList, EagerIter, Maybe, has_block
from .conc import _item, _usage, _d, _opt, _parser, _formatter, _streamer, _dumper, _extractor
from hrdc.util import NamedConstant
from hrdc.usage.usage import Usage as UsageConst, UsageRange, UsageType

_registered = z3.Function("registered", z3.IntSort(), z3.BoolSort())


class OpaqueKinds:
    """The kinds of a registered usage: unknown, but a function of its value."""

    def __init__(self, k):
        self.k = k

    def vf_contains(self, it, x):
        f = z3.Function("kind_%s" % getattr(x, "name", "?").replace(" ", "_"), z3.IntSort(), z3.BoolSort())
        return SymBool(f(zi(self.k)))


def abstract_usage(key, registered=True):
    """A registered usage constant of value `key` (contract: unit registry-table)."""
    u = object.__new__(UsageConst)
    u.value = key
    page, name = Opaque("pagename", nonempty=True), Opaque("usagename", nonempty=True)
    u.name = SymStr([Opaque("regname", parts=(SymStr([page]), SymStr([name])), nonempty=True,
                            meaning=("usage", key))])
    u.kinds = OpaqueKinds(key)
    return u


def reverse_model(it, key):
    """Usage.reverse[key] for a symbolic key: present or not; if present, an entry
    that satisfies the table contract checked over all entries (registry-table)."""
    if it.path.fork(_registered(zi(key))):
        it.path.assume(z3.And(zi(key) >= 0, zi(key) < (1 << 32)))
        return True, abstract_usage(key)
    return False, None


def item_contract(it, c, args, kwargs):
    """Contract of every item constructor, discharged by C01 for all 27 items: the item
    holds the given value (nothing and 0 alike), a usage item holds a usage of that value,
    and an unsigned item refuses a negative value."""
    key = [k for k, v in _item.Item.registry.items() if v is c]
    if len(key) != 1 or kwargs or key[0] not in conc.ITEMS:
        return NotImplemented
    key = key[0]
    if key in conc.NOVALUE:
        if args and not it.truth(it.eq(args[0], 0)):
            raise AssertionError("no value expected")
        v = 0
    else:
        if len(args) != 1:
            return NotImplemented
        v = args[0]
    v = 0 if v is None else v
    n = it.to_int(v)
    if not conc.ITEMS[key][1] and (n < 0 if isinstance(n, int) else it.path.feasible(n.e < 0) and it.path.fork(n.e < 0)):
        raise AssertionError("negative value")
    if key[0] == 2 and key[1] <= 2 and not isinstance(v, UsageConst):
        u = object.__new__(UsageConst)
        u.value, u.kinds = n, OpaqueKinds(n)
        u.name = v.name if isinstance(v, NamedConstant) else SymStr([Opaque("usage text", nonempty=True, meaning=("usage", n))])
        v = u
    elif not isinstance(v, NamedConstant) and key[0] == 0 and key not in conc.NOVALUE:
        v = named(it.path, n)
    x = it.born(object.__new__(c))
    x.value = v
    x.optionalValue = key in ((0, 8), (0, 12))
    return x


def split_contract(it, args, kwargs):
    """Contract of Usage.split, discharged by C10: page and number in the page, as named constants."""
    v = it.to_int(args[0].value)
    return named(it.path, mkint(zi(v) / 65536), "page name"), named(it.path, mkint(zi(v) % 65536), "usage name")


def new(path, items=False):
    it = Interp(path)
    it.bigdicts[id(UsageConst.reverse)] = reverse_model
    if items:
        it.class_hooks.append((_item.Item, item_contract))
        it.hooks[UsageConst.split] = split_contract
    return it


def named(path, v, label="name"):
    """An arbitrary named constant of value v."""
    c = object.__new__(NamedConstant)
    c.name = SymStr([Opaque(label, nonempty=True)])
    c.value = v
    return c


def registry_table(report):
    """Ground contract of the usage table that reverse_model relies on."""
    bad = []
    for k, u in UsageConst.reverse.items():
        if type(k) is not int or not isinstance(u, UsageConst) or u.value != k or type(u.value) is not int \
                or not isinstance(u.name, str) or "." not in u.name or not (0 <= k < 1 << 32) or not isinstance(u.kinds, set):
            bad.append((k, getattr(u, "name", None)))
    report.add("registry-table: every entry is a Usage under its own value, named page.usage", "failed" if bad or not UsageConst.reverse else "proved",
               "evaluation", 0.0, None, bad[:5] or None)


def _alike(a, b):
    if type(a) is not type(b):
        return False
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(_alike(x, y) for x, y in zip(a, b))
    if isinstance(a, dict):
        return len(a) == len(b) and all(k in b and _alike(v, b[k]) for k, v in a.items())
    if isinstance(a, (int, str, bytes, float, set, frozenset)):
        return a == b
    return a is b


def _frozen(v):
    if type(v) in (list, tuple):
        return type(v)(_frozen(x) for x in v)
    if type(v) in (dict, set):
        return type(v)(v)
    return v


def constant(o, *names):
    """Frame condition: harnesses take these attributes as the constructor leaves them, so no call may change them."""
    if not isinstance(o, type):
        apart(o)
    sym.cur().__dict__.setdefault("fixed", []).append((o, {n: _frozen(o.__dict__[n]) for n in names}, set(o.__dict__)))


def apart(o):
    """Separation: what an object keeps in its attributes is kept in containers of their own, now and at the end of the
    harness, so that replacing each by an unknown one, as harnesses do, loses nothing."""
    sym.cur().__dict__.setdefault("apart", []).append(o)
    shared(o)


def shared(o):
    seen = {}

    def walk(v, where):
        if isinstance(v, tuple):
            for x in v:
                walk(x, where)
            return
        if not isinstance(v, (list, dict, set, bytearray, SymSet, SymDict)):
            return
        if id(v) in seen:
            raise Unsupported("%s and %s of %s are one object" % (seen[id(v)], where, type(o).__name__))
        seen[id(v)] = where
        if isinstance(v, (list, set)):
            for x in list(v):
                walk(x, where)
        elif isinstance(v, dict):
            for x in list(v.values()):
                walk(x, where)
    for n, v in o.__dict__.items():
        walk(v, n)


def check_fixed(p):
    for o in p.__dict__.get("apart", ()):
        shared(o)
    for o, vals, names in p.__dict__.get("fixed", ()):
        if set(o.__dict__) - names:
            raise Unsupported("state of another shape: %s" % ", ".join(sorted(set(o.__dict__) - names)))
        for n, v in vals.items():
            if n not in o.__dict__ or not _alike(o.__dict__[n], v):
                raise Unsupported("%s.%s varies, and the contracts take it for constant" % (type(o).__name__, n))


PRINTS = None           # a list: paths that write to standard output are noted there


def printed(p):
    if PRINTS is not None and p.__dict__.get("printed") and p.check() != z3.unsat:
        PRINTS.append(p.model())


class Watch:
    """What a turn of a loop is proved from: everything reachable from the loop's variables is in the state the
    first turn finds it in, except what the loop's invariant describes.  A turn that changes anything else is out of reach."""

    def __init__(self, roots, described):
        self.kept, skip = [], {id(d) for d in described}
        seen, todo = set(), [r for r in roots]
        while todo:
            o = todo.pop()
            if id(o) in seen or id(o) in skip:
                continue
            seen.add(id(o))
            if isinstance(o, (list, tuple)):
                now = list(o)
            elif isinstance(o, (set, frozenset, bytearray)):
                now = set(o) if not isinstance(o, bytearray) else bytes(o)
            elif isinstance(o, dict):
                now = dict(o)
            elif isinstance(o, SymSet):
                now = list(o.elems)
            elif type(o).__module__.split(".")[0] == "hrdc" and hasattr(o, "__dict__") and not isinstance(o, type):
                now = dict(o.__dict__)
            else:
                continue
            self.kept.append((o, now))
            todo += list(now.values()) if isinstance(now, dict) else [] if isinstance(now, bytes) else list(now)

    def check(self, but=()):
        but = {id(d) for d in but}
        for o, was in self.kept:
            if id(o) in but:
                continue
            now = o.elems if isinstance(o, SymSet) else bytes(o) if isinstance(o, bytearray) else o.__dict__ if not isinstance(o, (list, tuple, set, frozenset, dict)) else o
            if isinstance(was, dict):
                ok = set(map(id, was)) == set(map(id, now)) and all(now[k] is v or _alike(now[k], v) for k, v in was.items())
            elif isinstance(was, list):
                ok = len(was) == len(now) and all(a is b or _alike(a, b) for a, b in zip(was, now))
            else:
                ok = was == now
            if not ok:
                raise Unsupported("a turn of the loop changes a %s of its own" % type(o).__name__)


def run_harness(report, name, fn, maxpaths=20000, items=False):
    """Explore fn(path, interp); an unexpected exception is an undischarged obligation.
    items=True: item constructors are taken by their contract (C01) instead of their body."""
    live = []

    def h(p):
        it = new(p, items)
        try:
            fn(p, it)
            if not live and p.check() == z3.sat:
                live.append(1)          # not vacuous: something satisfies what the unit assumes
            check_fixed(p)
            printed(p)
        except PathEnd:
            if not live and getattr(p, "claims", 0) and p.check() == z3.sat:
                live.append(1)
            printed(p)
            raise
        except Unsupported:
            raise
        except Exception as e:      # noqa: BLE001
            import traceback
            tb = traceback.extract_tb(e.__traceback__)[-1]
            if p.check() != z3.unsat:
                p.report.add(name + ": no unexpected exception", "exception", "evaluation", 0.0, p.model(),
                             "%s: %s (%s:%d)" % (type(e).__name__, str(e)[:200], tb.filename.split("/")[-1], tb.lineno))
    n = explore(h, report, maxpaths)
    if not live and not any(o["status"] == "exception" for k, o in report.ob.items() if k.startswith(name + ":")):
        report.add(name + ": reachable", "unknown", "evaluation", 0.0)
    return n


def raises(it, fn, *exc):
    """Run fn(); True if it raised one of exc (default: any Exception)."""
    try:
        return False, fn()
    except (Unsupported, PathEnd):
        raise
    except (exc or (Exception,)) as e:
        it.path.__dict__.pop("printed", None)       # said while refusing
        return True, e


def eqi(a, b):
    """a == b on ints (symbolic or not)."""
    return mkbool(zi(a) == zi(b))


def ints(it, v):
    return it.to_int(v)

__all__ = [n for n in globals() if not n.startswith("__")]
