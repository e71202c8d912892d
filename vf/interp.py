"""Symbolic interpreter for the real functions of /repo, from their AST.

The modules of /repo are imported natively (so classes, registries, tables and
module-level code are the real ones) and every *function* whose code comes from
/repo is interpreted from the AST of the file it came from, parsed on this run.
Nothing is dropped: an AST node the interpreter does not know raises Unsupported.
"""
import ast
import builtins
import copy as _copy
import math
import os
import re
import sys
import struct
import types
import enum
import functools
import operator
import z3
from . import sym
from .sym import (SymInt, SymBool, SymStr, SymBytes, Unsupported, PathEnd, Dec, HexP, Opaque, Rest,
                  mkint, mkbool, mkstr, mkbytes, zi, zb, land, lor, lnot, ite, isint, issym)

REPO = os.environ.get("VF_REPO", "/repo")
ROOT = os.path.join(os.path.realpath(REPO), "hrdc") + os.sep
_index = {}
_seen_functions = {}


def saw(f):
    k = f.__code__.co_filename[len(ROOT) - 5:] + ":" + f.__qualname__
    _seen_functions[k] = _seen_functions.get(k, 0) + 1


def _load(filename):
    if filename in _index:
        return _index[filename]
    tree = ast.parse(open(filename, encoding="utf-8").read(), filename)
    tab = {}

    def walk(node, cls):
        for ch in ast.iter_child_nodes(node):
            c = cls
            if isinstance(ch, (ast.FunctionDef, ast.AsyncFunctionDef)):
                line = min([ch.lineno] + [d.lineno for d in ch.decorator_list])
                tab.setdefault((line, ch.name), []).append((ch, cls))
            elif isinstance(ch, ast.Lambda):
                tab.setdefault((ch.lineno, "<lambda>"), []).append((ch, cls))
            elif isinstance(ch, ast.ClassDef):
                c = ch.name
            walk(ch, c)
    walk(tree, None)
    _index[filename] = tab
    return tab


@functools.lru_cache(maxsize=None)
def _is_repo_file(fn):
    return os.path.realpath(fn).startswith(ROOT)


def is_repo_function(f):
    return isinstance(f, types.FunctionType) and _is_repo_file(f.__code__.co_filename)


@functools.lru_cache(maxsize=None)
def is_repo_class(c):
    return isinstance(c, type) and (c.__module__ or "").split(".")[0] == "hrdc"


def repo_method(cls, name):
    """The method `name` of cls if it is implemented in /repo (or by the engine)."""
    for k in cls.__mro__:
        if name in k.__dict__:
            v = k.__dict__[name]
            return v if is_repo_class(k) or getattr(k, "_vf_class", False) else None
    return None


@functools.lru_cache(maxsize=None)
def node_of_code(code):
    tab = _load(os.path.realpath(code.co_filename))
    c = tab.get((code.co_firstlineno, code.co_name), [])
    if len(c) > 1 and code.co_name == "<lambda>":
        pos = [p for p in code.co_positions() if p[0] is not None]
        c = [x for x in c if any(x[0].lineno <= p[0] and (x[0].body.col_offset == p[2]) for p in pos)]
    if len(c) != 1:
        raise Unsupported("cannot find the source of %s" % code.co_qualname)
    return c[0]


def functions_seen():
    return dict(_seen_functions)


class InterpFunction:
    """A function or lambda created by interpreted code."""

    def __init__(self, it, node, frame, cls, defaults, kwdefaults, name):
        self.it, self.node, self.frame, self.cls = it, node, frame, cls
        self.defaults, self.kwdefaults, self.__name__ = defaults, kwdefaults, name

    def __call__(self, *a, **k):
        return self.it.call(self, a, k)

    def __get__(self, obj, typ=None):
        return self if obj is None else types.MethodType(self, obj)


class Frame:
    __slots__ = ("vars", "globals", "parent", "cls", "globaldecl", "nonlocaldecl", "yields", "name", "first", "node",
                 "loops", "locals_set", "choosing")

    def __init__(self, globals, parent, cls, name, node):
        self.vars = {}
        self.globals = globals
        self.parent = parent
        self.cls = cls
        self.globaldecl = set()
        self.nonlocaldecl = set()
        self.yields = None
        self.name = name
        self.first = None
        self.node = node
        self.loops = {}
        self.locals_set = None
        self.choosing = False


class Consumed(Exception):
    """The for statement consuming a generator is left"""

    def __init__(self, take, st):
        Exception.__init__(self)
        self.take, self.st = take, st


class NotLazy(Exception):
    """A generator that is run on its own first"""


class Consumer:
    """The for statement that consumes a generator"""
    _vf_class = True

    def __init__(self, it, s, fr):
        self.it, self.s, self.fr, self.level, self.n = it, s, fr, len(it.path.journal), 0

    def take(self, x):
        it = self.it
        if isinstance(x, (Block, Maybe)) or len(it.path.journal) != self.level:
            if self.n:
                raise Unsupported("generator over an unbounded list")
            raise NotLazy
        self.n += 1
        frames = it.frames
        it.frames = frames[:frames.index(self.fr) + 1] if self.fr in frames else frames
        try:
            it.assign(self.s.target, x, self.fr)
            st = it.block(self.s.body, self.fr)
        finally:
            it.frames = frames
        if st is not None and st[0] != "continue":
            raise Consumed(self, st)


class View(list):
    """keys(), values() or items() of a dict"""
    __slots__ = ("src", "what")

    def now(self):
        return list(getattr(self.src, self.what)())

    def __len__(self):
        return len(self.src)

    def __iter__(self):
        return iter(self.now())

    def __contains__(self, x):
        return x in self.now()


def view(d, what):
    v = View(getattr(d, what)())
    v.src, v.what = d, what
    return v


class ByteArr(list):
    """A bytearray: a list of numbers 0..255"""

    def _n(self, *a):
        raise Unsupported("native call on a bytearray")
    hex = startswith = endswith = decode = find = _n


class EagerIter:
    """Iterator over already computed elements (may contain Blocks).
    lazy: the code would compute them one by one, as they are asked for; what was computed holds as long as
    nothing changes in between.  effects: computing them changed something.  srcs: lists the elements come from."""

    def __init__(self, elems, it=None, lazy=False, effects=False, srcs=()):
        self.elems = list(elems)
        self.pos = 0
        self.it = it
        self.lazy, self.effects = lazy, effects
        self.stamp = it.stamp if it is not None else None
        self.srcs = [(x, list(x)) for x in srcs if isinstance(x, list)]
        self.error = self.redo = None
        self.used = False
        if effects:
            it.unused.append(self)

    def fresh(self):
        """what was computed in advance is still what the code would compute now"""
        if self.error is not None:
            raise Unsupported("generator with side effects") if self.effects else self.error
        if self.pos >= len(self.elems) and not self.srcs:
            return
        if self.effects:
            raise Unsupported("generator with side effects")
        if self.lazy and self.it.stamp != self.stamp:
            raise Unsupported("generator consumed after something changed")
        for x, old in self.srcs:
            if len(x) != len(old) or any(a is not b for a, b in zip(x, old)):
                raise Unsupported("list changed while it is iterated over")

    def __iter__(self):
        return self

    def __next__(self):
        self.fresh()
        if self.pos >= len(self.elems):
            raise StopIteration
        x = self.elems[self.pos]
        if isinstance(x, Block):
            raise Unsupported("native iteration over an unbounded block")
        self.pos += 1
        return x

    def take(self):
        r = self.elems[self.pos:]
        self.pos = len(self.elems)
        self.used = True
        return r


# ---------------------------------------------------------------- unbounded lists
_uid = [0]


class Block:
    """An unknown number `n` of list elements.

    cases(it) -> list of (label, make) with make(it, i) building a generic element
    (fresh symbolic values, assumptions included).  get(it, i) gives the element
    at a symbolic position when the block is indexable.
    """
    _vf_class = True

    def __init__(self, n, cases=None, get=None, name="block"):
        _uid[0] += 1
        self.uid = _uid[0]
        self.n = n
        self._cases = cases
        self._get = get
        self.name = name
        self.ghost = {}

    def cases(self, it):
        if self._cases is None:
            return [("element", lambda it, i: self.get(it, i))]
        return self._cases

    def get(self, it, i):
        if self._get is None:
            raise Unsupported("indexing in block " + self.name)
        return self._get(it, i)

    def __hash__(self):
        return id(self)

    def __eq__(self, o):
        return self is o


class Forgotten:
    """Value of a variable that a loop over an unbounded list assigns, after the loop."""
    def __getattr__(self, n):
        raise Unsupported("a variable after a loop over an unbounded list")


FORGOTTEN = Forgotten()


class Drained(Block):
    """What is left, at some moment, of a list being emptied: nothing is known of it."""

    def __init__(self):
        self.name, self.ghost, self._get, self._cases = "drained", {}, None, None

    @property
    def n(self):
        raise Unsupported("a list read while it is emptied")

    def cases(self, it):
        raise Unsupported("a list read while it is emptied")


class Derived(Block):
    """What a loop / comprehension makes of a block, element by element."""

    def __init__(self, src, results, n=None, get=None):
        # results: list of (label, elem, pathcond, outputs)
        Block.__init__(self, n, None, get, "derived(%s)" % src.name)
        self.src, self.results = src, results
        self.stamp = None
        self.entries = None         # (position, condition, result), one result for each element

    def cases(self, it):
        if self._get is not None and (it.stamp == self.stamp or all(simple_value(x) for r in self.results for x in r[3])):
            return [("element", lambda it, i: self.get(it, i))]
        if any(len(r[3]) > 1 or has_block(r[3]) for r in self.results):
            raise Unsupported("second pass over a derived block")

        def again(pc, out):
            # the generic element of the first pass stands for any element here too
            def make(it, i):
                it.path.assume(pc)
                return out[0]
            return make
        return [(l, again(pc, out)) for l, e, pc, out in self.results if out]

    def dropped(self):
        return [l for l, e, pc, out in self.results if not out]


class Maybe:
    """A list element that is there only if cond holds (filtered comprehension)."""

    def __init__(self, cond, value):
        self.cond, self.value = cond, value


def has_block(xs):
    return any(isinstance(x, (Block, Maybe)) for x in xs)


class SymRange:
    def __init__(self, lo, hi):
        self.lo, self.hi = lo, hi

    def block(self):
        lo, hi = self.lo, self.hi
        n = ite(mkbool(zi(hi) > zi(lo)), mkint(zi(hi) - zi(lo)), 0)
        return Block(n, None, lambda it, i: lo + i, "range")


class SymDict:
    """A dict whose contents before this call are unknown: `make(it, key)` supplies
    an entry the first time its key is looked at (None -> absent)."""
    _vf_class = True

    def __init__(self, make, known=None, parent=None):
        self.make = make
        self.known = {} if known is None else known       # int key -> [present, key, value]
        self.own = {}

    def _k(self, it, key):
        k = it.to_int(key)
        if isinstance(k, SymInt):
            k = it.path.concretize(k, 32)
        return k

    def lookup(self, it, key):
        k = self._k(it, key)
        if k in self.own:
            return self.own[k]
        if k not in self.known:
            v = self.make(it, k)
            self.known[k] = (False, None) if v is None else (True, v[0])
        return self.known[k]

    def store(self, it, key, v):
        k = self._k(it, key)
        it.touch(self.own)
        self.own[k] = (True, v)

    def delete(self, it, key):
        k = self._k(it, key)
        it.touch(self.own)
        self.own[k] = (False, None)

    def copy(self):
        c = SymDict(self.make, self.known)
        c.own = dict(self.own)
        return c


class SymSet:
    """A set of ints, some symbolic."""
    _vf_class = True

    def __init__(self, elems=()):
        self.elems = list(elems)
        self.n = None               # size, when it is known apart from the elements
        self.has = None             # membership, when the elements are not known

    def contains(self, it, x):
        if self.has is not None:
            return self.has(it, x)
        return lor(*[it.eq(e, x) for e in self.elems])

    def distinct(self, it):
        if self.has is not None:
            raise Unsupported("elements of an unknown set")
        out = []
        for e in self.elems:
            if isinstance(e, Block):
                raise Unsupported("elements of an unbounded set")
            if not any(it.truth(it.eq(e, o)) for o in out):
                out.append(e)
        return out


class SymList256(list):
    """A concrete-length list of ints seen as an SMT array (symbolic index)."""
    _vf_class = True

    def __init__(self, arr, n):
        list.__init__(self)
        self.arr, self.n = arr, n


_MISSING = object()
_BINOPS = {
    ast.Add: ("__add__", "__radd__", operator.add), ast.Sub: ("__sub__", "__rsub__", operator.sub),
    ast.Mult: ("__mul__", "__rmul__", operator.mul), ast.FloorDiv: ("__floordiv__", "__rfloordiv__", operator.floordiv),
    ast.Mod: ("__mod__", "__rmod__", operator.mod), ast.LShift: ("__lshift__", "__rlshift__", operator.lshift),
    ast.RShift: ("__rshift__", "__rrshift__", operator.rshift), ast.BitAnd: ("__and__", "__rand__", operator.and_),
    ast.BitOr: ("__or__", "__ror__", operator.or_), ast.BitXor: ("__xor__", "__rxor__", operator.xor),
    ast.Div: ("__truediv__", "__rtruediv__", operator.truediv), ast.Pow: ("__pow__", "__rpow__", operator.pow),
}
_CMPOPS = {ast.Lt: ("__lt__", "__gt__", operator.lt), ast.Gt: ("__gt__", "__lt__", operator.gt),
           ast.LtE: ("__le__", "__ge__", operator.le), ast.GtE: ("__ge__", "__le__", operator.ge)}
_CONST = (int, str, bytes, float, bool, type(None), type(Ellipsis))


_shared = None


def shared():
    """Everything mutable that outlives a call: what the repository's modules and classes hold, defaults and closures included."""
    global _shared
    if _shared is None:
        import sys
        import types
        seen, todo = {}, [m for n, m in list(sys.modules.items()) if n == "hrdc" or n.startswith("hrdc.")]
        while todo:
            o = todo.pop()
            if id(o) in seen:
                continue
            if isinstance(o, (staticmethod, classmethod)):
                o = o.__func__
            if isinstance(o, types.ModuleType):
                if o.__name__ != "hrdc" and not o.__name__.startswith("hrdc."):
                    continue
                seen[id(o)] = o
                seen[id(o.__dict__)] = o.__dict__
                todo += list(o.__dict__.values())
            elif isinstance(o, type):
                if not is_repo_class(o):
                    continue
                seen[id(o)] = o
                todo += list(o.__dict__.values())
            elif isinstance(o, types.FunctionType):
                if not (o.__module__ or "").startswith("hrdc"):
                    continue
                seen[id(o)] = o
                todo += list(o.__defaults__ or ()) + list((o.__kwdefaults__ or {}).values())
                todo += [c.cell_contents for c in o.__closure__ or () if c.cell_contents is not o]
            elif isinstance(o, property):
                todo += [f for f in (o.fget, o.fset, o.fdel) if f]
            elif isinstance(o, (list, tuple, set, frozenset)):
                if not isinstance(o, (tuple, frozenset)):
                    seen[id(o)] = o
                todo += list(o)
            elif isinstance(o, dict):
                seen[id(o)] = o
                todo += list(o.keys()) + list(o.values())
            elif is_repo_class(type(o)):
                seen[id(o)] = o
                todo += list(getattr(o, "__dict__", {}).values())
        _shared = seen
    return _shared


class Interp:
    def __init__(self, path):
        self.path = path
        self.depth = 0
        self.bigdicts = {}          # id(dict) -> fn(it, key) -> (present, value)
        self.symsets = False        # every set as a SymSet
        self.loop_contracts = {}    # function name -> contract object
        self.hooks = {}             # function qualname -> replacement (contract) (it, args, kwargs)
        self.frames = []
        self.consumer = None
        self.catch_log = []
        self.class_hooks = []       # (class, contract of its constructor (it, cls, args, kwargs) -> object)
        self.unused = []            # generators whose effects were had in advance
        self.stamp = self.stamps = 0    # which state of the heap this is; no number is used twice
        self.made = {}              # generic index -> range of the symbols its iteration introduced
        self.may_change = set()     # ids of shared objects whose changes the contract covers
        self.births = []            # objects created by interpreted code, in order

    # ------------------------------------------------------------ journal
    def touch(self, obj):
        """Called before a mutation of obj (list, dict, set, or instance)."""
        self.stamps += 1
        self.stamp = self.stamps
        if id(obj) in shared() and id(obj) not in self.may_change:
            # contracts say nothing about what changes from one call to the next behind an object's back
            raise Unsupported("module or class state is changed")
        if not self.path.journal:
            return
        j = self.path.journal[-1]
        if id(obj) in j:
            return
        if isinstance(obj, list):
            j[id(obj)] = (obj, "list", list(obj))
        elif isinstance(obj, dict):
            j[id(obj)] = (obj, "dict", dict(obj))
        elif isinstance(obj, set):
            j[id(obj)] = (obj, "set", set(obj))
        elif isinstance(obj, SymSet):
            j[id(obj)] = (obj, "symset", list(obj.elems))
        else:
            d = getattr(obj, "__dict__", None)
            if d is None:
                raise Unsupported("mutation of %s" % type(obj))
            j[id(obj)] = (obj, "attrs", dict(d))

    def born(self, obj):
        if self.path.journal:
            self.births.append(obj)
        return obj

    @staticmethod
    def undo(j, born=()):
        for obj, kind, old in reversed(list(j.values())):
            if id(obj) in born:
                continue
            if kind == "list":
                obj[:] = old
            elif kind == "dict":
                obj.clear()
                obj.update(old)
            elif kind == "set":
                obj.clear()
                obj.update(old)
            elif kind == "symset":
                obj.elems = list(old)
            elif isinstance(obj, type):
                for k in list(obj.__dict__):
                    if k not in old:
                        delattr(obj, k)
                for k, v in old.items():
                    if obj.__dict__.get(k, _MISSING) is not v:
                        setattr(obj, k, v)
            else:
                obj.__dict__.clear()
                obj.__dict__.update(old)

    # ------------------------------------------------------------ basic operations
    def truth(self, v):
        if isinstance(v, (bool, int, type(None), str, bytes, float)):
            return bool(v)
        if isinstance(v, (SymInt, SymBool, SymStr, SymBytes)):
            return bool(v)
        if isinstance(v, (list, tuple)):
            if any(not isinstance(x, (Block, Maybe)) for x in v):
                return True
            if isinstance(v, SymList256):
                return v.n > 0
            cs = [mkbool(zi(x.n) > 0) if isinstance(x, Block) else x.cond for x in v]
            return self.truth(lor(*cs)) if cs else False
        if isinstance(v, SymRange):
            return self.truth(self.cmp_native(operator.gt, v.hi, v.lo))
        if isinstance(v, SymSet):
            return (bool(v.elems) if not has_block(v.elems) else self.truth(v.elems)) if v.n is None else self.truth(mkbool(zi(v.n) > 0))
        if isinstance(v, SymDict):
            raise Unsupported("truth of an unknown dict")
        t = type(v)
        m = repo_method(t, "__bool__")
        if m is not None:
            return self.truth(self.call(m, (v,), {}))
        m = repo_method(t, "__len__")
        if m is not None:
            return self.truth(self.call(m, (v,), {}))
        return bool(v)

    def cmp_native(self, op, a, b):
        return op(a, b)

    def eq(self, a, b):
        ta, tb = type(a), type(b)
        ma = repo_method(ta, "__eq__")
        mb = repo_method(tb, "__eq__")
        if ma is None and mb is None:
            if isinstance(a, Block) or isinstance(b, Block):
                raise Unsupported("comparison of a block")
            if isinstance(a, ByteArr) or isinstance(b, ByteArr):
                if not all(isinstance(x, (ByteArr, bytes, SymBytes)) for x in (a, b)):
                    return False
                return self.eq(b_bytes(self, a), b_bytes(self, b))
            if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
                if isinstance(a, list) != isinstance(b, list):
                    return False
                if has_block(a) or has_block(b):
                    if a is b:
                        return True
                    return self.eq_blocks(a, b)
                if len(a) != len(b):
                    return False
                return land(*[True if x is y else self.eq(x, y) for x, y in zip(a, b)])
            if isinstance(a, (SymRange, SymDict, SymSet)) or isinstance(b, (SymRange, SymDict, SymSet)):
                if a is b:
                    return True
                if a is None or b is None:
                    return False
                if isinstance(a, (SymSet, set, frozenset)) and isinstance(b, (SymSet, set, frozenset)):
                    ea, eb = (x.elems if isinstance(x, SymSet) else list(x) for x in (a, b))
                    if not any(getattr(x, "has", None) or has_block(e) for x, e in ((a, ea), (b, eb))):
                        return land(*([lor(*[self.eq(x, y) for y in eb]) for x in ea] + [lor(*[self.eq(x, y) for x in ea]) for y in eb]))
                    for x, y in ((a, ea), (b, eb)):
                        o, eo = (b, eb) if x is a else (a, ea)
                        if isinstance(x, SymSet) and x.has is not None and x.n is not None and not getattr(o, "has", None) \
                                and not has_block(eo) and self.path.valid(zi(x.n) > len(eo)):
                            return False
                raise Unsupported("comparison of symbolic containers")
            return a == b
        order = [(ma, a, b), (mb, b, a)]
        if ma is None or (mb is not None and ta is not tb and issubclass(tb, ta)):
            order.reverse()
        for m, x, y in order:
            if m is None:
                continue
            r = self.call(m, (x, y), {})
            if r is not NotImplemented:
                return r
        return a is b

    def eq_blocks(self, a, b):
        """Two lists of unknown lengths, element by element"""
        if len(a) != 1 or len(b) != 1 or not all(isinstance(x[0], Block) and x[0]._get is not None and x[0].n is not None for x in (a, b)):
            raise Unsupported("comparison of unbounded lists")
        a, b, p = a[0], b[0], self.path
        if not self.truth(mkbool(zi(a.n) == zi(b.n))):
            return False

        def at(i):
            p.assume(z3.And(i.e >= 0, i.e < zi(a.n)))
            stamp, na, nt = self.stamp, len(p.solver.assertions()), len(p.taken)
            r = self.eq(a.get(self, i), b.get(self, i))
            return r, (self.stamp, len(p.solver.assertions()), len(p.taken)) == (stamp, na, nt)
        if p.choose(2):
            r, _ = at(p.int("i"))
            if self.truth(r):
                raise PathEnd
            return False
        p.solver.push()
        try:
            i = p.int("i")
            r, pure = at(i)
        finally:
            p.solver.pop()
        if not pure or not isinstance(r, (bool, SymBool)):
            raise Unsupported("comparison of unbounded lists")
        p.assume(z3.ForAll([i.e], z3.Implies(z3.And(i.e >= 0, i.e < zi(a.n)), r.e if isinstance(r, SymBool) else z3.BoolVal(r))))
        if p.check() == z3.unsat:
            raise PathEnd
        return True

    def ne(self, a, b):
        m = repo_method(type(a), "__ne__")
        if m is not None:
            r = self.call(m, (a, b), {})
            if r is not NotImplemented:
                return r
        r = self.eq(a, b)
        return lnot(r) if isinstance(r, (SymBool, bool)) else not self.truth(r)

    def binop(self, op, a, b, inplace=False):
        dn, rn, fn = _BINOPS[type(op)]
        if inplace:
            iname = "__i" + dn[2:]
            if isinstance(a, list) and isinstance(op, ast.Add):
                xs = bytes_of(self, b) if isinstance(a, ByteArr) else self.elements(b, True)
                self.touch(a)
                a.extend(xs)
                return a
            if isinstance(a, set) and isinstance(op, ast.BitOr):
                if isinstance(b, SymSet):
                    raise Unsupported("symbolic elements added to a plain set")
                self.touch(a)
                a |= b
                return a
            if isinstance(a, SymSet) and isinstance(op, ast.BitOr):
                self.call_method(a, "update", (b,))
                return a
            if isinstance(a, SymSet):
                raise Unsupported("in-place set operation")
            m = repo_method(type(a), iname)
            if m is not None:
                r = self.call(m, (a, b), {})
                if r is not NotImplemented:
                    return r
            elif type(a).__module__ != "builtins" and hasattr(type(a), iname) and not issym(a):
                raise Unsupported("in-place operator on %s" % type(a))
        if isinstance(a, str) and isinstance(op, ast.Mod):
            return self.format_percent(a, b)
        if isinstance(a, SymSet) or isinstance(b, SymSet):
            if any(isinstance(x, SymSet) and x.has is not None for x in (a, b)):
                raise Unsupported("operation on an unknown set")
            if isinstance(op, ast.BitOr):
                ea = a.elems if isinstance(a, SymSet) else list(a)
                eb = b.elems if isinstance(b, SymSet) else list(b)
                return SymSet(ea + [e for e in eb if not any(e is x for x in ea)])
            raise Unsupported("set operation")
        if isinstance(op, ast.Mult) and (isinstance(a, (str, list, tuple, SymStr)) and isinstance(b, SymInt) or isinstance(a, SymStr) and type(b) is int):
            if isinstance(a, (str, SymStr)):
                return SymStr([Opaque("repeat", nonempty=None, meaning=("repeat", a, b))])
        if isinstance(op, ast.Mult) and isinstance(a, (int, SymInt)) and isinstance(b, (str, SymStr)) and (isinstance(a, SymInt) or isinstance(b, SymStr)):
            return SymStr([Opaque("repeat", nonempty=None, meaning=("repeat", b, a))])
        ma = repo_method(type(a), dn)
        mb = repo_method(type(b), rn)
        if isinstance(a, ByteArr) or isinstance(b, ByteArr):
            if isinstance(op, ast.Add) and all(isinstance(x, (ByteArr, bytes, SymBytes)) for x in (a, b)):
                r = bytes_of(self, a) + bytes_of(self, b)
                return self.born(ByteArr(r)) if isinstance(a, ByteArr) else b_bytes(self, r)
            raise Unsupported("bytearray operator")
        if ma is None and mb is None:
            if isinstance(a, (list, tuple)) and isinstance(op, ast.Add):
                if isinstance(a, list) and isinstance(b, list):
                    return list(a) + list(b)
            if isinstance(op, ast.Pow) and isinstance(a, int) and isinstance(b, SymInt):
                return a ** self.path.concretize(b, 40)
            return fn(a, b)
        if ma is not None:
            r = self.call(ma, (a, b), {})
            if r is not NotImplemented:
                return r
        elif not issym(a) and not isinstance(a, (int, str)):
            n = getattr(type(a), dn, None)
            if n is not None:
                r = n(a, b)
                if r is not NotImplemented:
                    return r
        if mb is not None:
            r = self.call(mb, (b, a), {})
            if r is not NotImplemented:
                return r
        raise TypeError("unsupported operand type(s)")

    def compare(self, op, a, b):
        t = type(op)
        if t is ast.Is:
            return self.is_(a, b)
        if t is ast.IsNot:
            return not self.is_(a, b)
        if t is ast.Eq:
            return self.eq(a, b)
        if t is ast.NotEq:
            return self.ne(a, b)
        if t is ast.In:
            return self.contains(b, a)
        if t is ast.NotIn:
            r = self.contains(b, a)
            return lnot(r) if isinstance(r, (bool, SymBool)) else not self.truth(r)
        dn, rn, fn = _CMPOPS[t]
        ma, mb = repo_method(type(a), dn), repo_method(type(b), rn)
        if ma is None and mb is None:
            return fn(a, b)
        if ma is not None:
            r = self.call(ma, (a, b), {})
            if r is not NotImplemented:
                return r
        if mb is not None:
            r = self.call(mb, (b, a), {})
            if r is not NotImplemented:
                return r
        raise TypeError("'%s' not supported" % dn)

    @staticmethod
    def is_(a, b):
        if isinstance(a, (SymBool,)) or isinstance(b, (SymBool,)):
            o = b if isinstance(a, SymBool) else a
            if o is True or o is False:
                s = a if isinstance(a, SymBool) else b
                return s if o else lnot(s)
        return a is b

    def contains(self, c, x):
        if hasattr(type(c), "vf_contains"):
            return c.vf_contains(self, x)
        if isinstance(c, SymRange):
            return land(mkbool(zi(c.lo) <= zi(self.to_int(x))), mkbool(zi(self.to_int(x)) < zi(c.hi)))
        if isinstance(c, range) and issym(x):
            if c.step != 1:
                raise Unsupported("in range with step")
            return land(mkbool(c.start <= zi(x)), mkbool(zi(x) < c.stop))
        if isinstance(c, SymSet):
            return c.contains(self, x)
        if isinstance(c, (list, tuple)):
            if has_block(c):
                raise Unsupported("membership in an unbounded list")
            cs = []
            for e in c:
                if e is x:
                    return True
                r = self.eq(e, x)
                if r is True:
                    return True
                if r is False:
                    continue
                if not isinstance(r, SymBool):
                    if self.truth(r):
                        return True
                    continue
                cs.append(r)
            return lor(*cs)
        if isinstance(c, (dict, SymDict, set, frozenset)):
            if isinstance(c, (set, frozenset)):
                if self.symbolic_key(x):
                    return lor(*[self.eq(e, x) for e in c])
                return x in c
            return self.dict_get(c, x)[0]
        m = repo_method(type(c), "__contains__")
        if m is not None:
            return self.call(m, (c, x), {})
        if isinstance(c, (str, bytes)) and not issym(x):
            return x in c
        if isinstance(c, SymBytes):
            return lor(*[mkbool(zi(e) == zi(x)) for e in c])
        if isinstance(c, (SymStr,)):
            if x == ".":
                if any(isinstance(y, str) and x in y for y in c.p):
                    return True
                if len(c.p) == 1 or all(isinstance(y, (str, Dec, HexP)) for y in c.p):
                    return len(_str_method(self, c, "split", (".", 1), {})) > 1
            raise Unsupported("substring test on symbolic text")
        if repo_method(type(c), "__iter__") is not None:
            return self.contains(self.elements(c), x)
        if self.deep_sym(x):
            raise Unsupported("membership in %s" % type(c))
        return x in c

    # ------------------------------------------------------------ dicts
    def symbolic_key(self, k):
        if issym(k):
            return True
        if isinstance(k, tuple):
            return any(self.symbolic_key(x) for x in k)
        if is_repo_class(type(k)):
            d = getattr(k, "__dict__", {})
            return any(issym(v) for n, v in d.items() if n != "name")
        return False

    def dict_get(self, d, key):
        """(present, value)"""
        if isinstance(d, SymDict):
            return d.lookup(self, key)
        for k, v in reversed(self.path.overlay.get(id(d), ())):
            if k is key or self.truth(self.eq(k, key)):
                return True, v
        if id(d) in self.bigdicts:
            if self.symbolic_key(key):
                return self.bigdicts[id(d)](self, self.to_int(key))
        if not self.symbolic_key(key):
            try:
                return (True, d[key]) if key in d else (False, None)
            except TypeError:
                raise
        if len(d) > 64:
            raise Unsupported("symbolic key in a large dict")
        for k, v in d.items():
            if type(k) is tuple and type(key) is tuple and len(k) != len(key):
                continue
            if self.truth(self.eq(k, key)):
                return True, v
        return False, None

    def dict_set(self, d, key, value):
        if isinstance(d, SymDict):
            d.store(self, key, value)
            return
        if not self.symbolic_key(key):
            if id(d) in self.path.overlay:
                raise Unsupported("dict with symbolic keys written again")
            self.touch(d)
            d[key] = value
            return
        if len(d) <= 64 and id(d) not in self.bigdicts:
            for k in list(d):
                if self.truth(self.eq(k, key)):
                    self.touch(d)
                    d[k] = value
                    return
        if self.path.journal:
            raise Unsupported("symbolic dict write inside a block loop")
        self.touch(d)
        self.path.overlay.setdefault(id(d), []).append((key, value))
        self.path.__dict__.setdefault("keepalive", []).append(d)

    # ------------------------------------------------------------ conversions
    def to_int(self, v, *base):
        if base and base[0] is not _MISSING:
            if isinstance(v, SymStr):
                return self.parse_int(v, base[0])
            return int(v, base[0])
        if isinstance(v, SymInt):
            return v
        if isinstance(v, SymBool):
            return sym.toint(v)
        if isinstance(v, FloorLog):
            return v.floor()
        if isinstance(v, (int, float, str, bytes)):
            return int(v)
        if isinstance(v, SymStr):
            return self.parse_int(v, 10)
        m = repo_method(type(v), "__int__")
        if m is not None:
            r = self.call(m, (v,), {})
            if isinstance(r, (SymInt, int)):
                return r
            if isinstance(r, SymBool):
                return sym.toint(r)
            raise TypeError("__int__ returned non-int (type %s)" % type(r).__name__)
        m = repo_method(type(v), "__index__")
        if m is not None:
            return self.call(m, (v,), {})
        return int(v)

    def parse_int(self, s, base):
        p = s.p
        if base == 16:
            if len(p) == 2 and p[0] in ("0x", "0X") and isinstance(p[1], HexP) and p[1].spec in ("%02x", "%x", "%02X", "%X"):
                return p[1].v
            if len(p) == 1 and isinstance(p[0], HexP):
                return p[0].v
        if base == 10 and len(p) == 1 and isinstance(p[0], Dec):
            return p[0].v
        raise Unsupported("int() of symbolic text")

    def to_str(self, v):
        if isinstance(v, (str, SymStr)):
            return v
        if isinstance(v, SymInt):
            return SymStr([Dec(v)])
        if isinstance(v, SymBool):
            return "True" if self.truth(v) else "False"
        m = repo_method(type(v), "__str__")
        if m is not None:
            r = self.call(m, (v,), {})
            if not isinstance(r, (str, SymStr)):
                raise TypeError("__str__ returned non-string")
            return r
        m = repo_method(type(v), "__repr__")
        if m is not None:
            return self.call(m, (v,), {})
        if self.deep_sym(v):
            if isinstance(v, (list, tuple)):
                raise Unsupported("text of a symbolic container")
            if isinstance(v, (Exception, SymBytes, Block)):
                raise Unsupported("text of %s" % type(v))
        return str(v)

    def to_hex(self, v):
        v = v if isinstance(v, SymInt) else operator.index(v)
        return SymStr([HexP(v, "0x")]) if isinstance(v, SymInt) else hex(v)

    _fmt = re.compile(r"%(?:\((\w+)\))?([-#0 +]*)(\d+)?(?:\.(\d+))?([diouxXeEfFgGcrsa%])")

    def format_percent(self, fmt, args):
        if isinstance(args, dict):
            raise Unsupported("mapping format")
        if not isinstance(args, tuple):
            args = (args,)
        out, pos, k = [], 0, 0
        for m in self._fmt.finditer(fmt):
            out.append(fmt[pos:m.start()])
            pos = m.end()
            conv = m.group(5)
            if conv == "%":
                out.append("%")
                continue
            if k >= len(args):
                raise TypeError("not enough arguments for format string")
            out.append(self.format_one(m.group(0), conv, args[k]))
            k += 1
        out.append(fmt[pos:])
        if k < len(args):
            raise TypeError("not all arguments converted during string formatting")
        return mkstr(out)

    def format_one(self, spec, conv, v):
        if conv == "s":
            t = self.to_str(v)
            if isinstance(t, SymStr):
                if spec != "%s":
                    raise Unsupported("padded symbolic text")
                return t
            return spec % t
        if conv in "di":
            if isinstance(v, (str, SymStr)):
                raise TypeError("%d format: a real number is required, not str")
            if v is None or isinstance(v, (list, tuple, dict)):
                raise TypeError("%d format: a real number is required")
            n = self.to_int(v)
            if isinstance(n, SymInt):
                if spec not in ("%d", "%i"):
                    raise Unsupported("padded symbolic number")
                return SymStr([Dec(n)])
            return spec % n
        if conv in "xX":
            if isinstance(v, SymInt):
                return SymStr([HexP(v, spec)])
            if is_repo_class(type(v)) and not hasattr(type(v), "__index__"):
                raise TypeError("%x format: an integer is required, not " + type(v).__name__)
            return spec % v
        if self.deep_sym(v):
            raise Unsupported("format %s of a symbolic value" % spec)
        return spec % (v,)

    def length(self, v):
        if isinstance(v, SymList256):
            return v.n
        if isinstance(v, (list, tuple)):
            if not has_block(v):
                return len(v)
            n = 0
            for x in v:
                if isinstance(x, Block):
                    if x.n is None:
                        raise Unsupported("length of a filtered block")
                    n = n + x.n
                elif isinstance(x, Maybe):
                    n = n + ite(x.cond, 1, 0)
                else:
                    n = n + 1
            return n
        if isinstance(v, SymBytes):
            return v.length()
        if isinstance(v, SymRange):
            return v.block().n
        if isinstance(v, SymSet):
            return len(v.distinct(self)) if v.n is None else v.n
        if isinstance(v, (SymStr, SymDict)):
            raise Unsupported("len of %s" % type(v).__name__)
        m = repo_method(type(v), "__len__")
        if m is not None:
            return self.call(m, (v,), {})
        if id(v) in self.path.overlay:
            raise Unsupported("len of a dict with symbolic keys")
        return len(v)

    def elements(self, v, full=False):
        """The elements an iteration over v visits, in order (may contain Blocks)."""
        if isinstance(v, (list, tuple)):
            if isinstance(v, SymList256):
                raise Unsupported("iteration over an SMT list")
            if type(v) is View:
                return v.now()
            return list(v)
        if isinstance(v, Block):
            return [v]
        if isinstance(v, EagerIter):
            if v.effects and not full:
                raise Unsupported("generator with side effects")
            if v.effects and v.stamp == self.stamp:
                v.used = True
                if v.error is not None:
                    raise v.error
            else:
                v.fresh()
            return v.take()
        if isinstance(v, SymRange):
            return [v.block()]
        if isinstance(v, SymSet):
            return v.distinct(self)
        if isinstance(v, (SymDict, SymStr)):
            raise Unsupported("iteration over %s" % type(v).__name__)
        m = repo_method(type(v), "__iter__")
        if m is not None:
            return self.elements(self.call(m, (v,), {}))
        m = repo_method(type(v), "__getitem__")
        if m is not None and not isinstance(v, (str, bytes, dict)):
            raise Unsupported("iteration through __getitem__")
        if isinstance(v, (int, SymInt, type(None))):
            raise TypeError("'%s' object is not iterable" % type(v).__name__)
        if id(v) in self.path.overlay:
            raise Unsupported("iteration over a dict with symbolic keys")
        return list(iter(v))

    def deep_sym(self, v, depth=3):
        if issym(v) or isinstance(v, (Block, Maybe, SymRange, SymDict, SymSet, SymList256, FloorLog)):
            return True
        if depth <= 0:
            return False
        if isinstance(v, EagerIter):
            v = v.elems
        if isinstance(v, (list, tuple, set, frozenset)):
            return any(self.deep_sym(x, depth - 1) for x in v)
        if isinstance(v, dict):
            return len(v) < 500 and any(self.deep_sym(x, depth - 1) for x in v.values())
        if is_repo_class(type(v)):
            return any(self.deep_sym(x, depth - 1) for x in getattr(v, "__dict__", {}).values())
        return False

    # ------------------------------------------------------------ attributes
    def getattr(self, obj, name, default=_MISSING):
        if isinstance(obj, (SymInt, SymBool, SymStr, SymBytes, SymDict, SymSet, SymRange, EagerIter, SymList256)):
            return ModelMethod(self, obj, name)
        t = type(obj)
        if is_repo_class(t) or (isinstance(obj, type) and is_repo_class(obj)):
            if not isinstance(obj, type):
                for k in t.__mro__:
                    if name in k.__dict__:
                        v = k.__dict__[name]
                        if isinstance(v, property):
                            if v.fget is None:
                                raise AttributeError(name)
                            return self.call(v.fget, (obj,), {})
                        if isinstance(v, functools.cached_property):
                            raise Unsupported("cached_property")
                        break
                ga = repo_method(t, "__getattribute__")
                if ga is not None:
                    raise Unsupported("__getattribute__")
            try:
                return getattr(obj, name)
            except AttributeError:
                if not isinstance(obj, type):
                    m = repo_method(t, "__getattr__")
                    if m is not None:
                        raise Unsupported("__getattr__")
                if default is not _MISSING:
                    return default
                raise
        if isinstance(obj, (list, dict, set)) and not name.startswith("__"):
            if not hasattr(obj, name):
                if default is not _MISSING:
                    return default
                raise AttributeError(name)
            return ModelMethod(self, obj, name)
        try:
            return getattr(obj, name)
        except AttributeError:
            if default is not _MISSING:
                return default
            raise

    def setattr(self, obj, name, value):
        t = type(obj)
        if issym(obj) or isinstance(obj, Block):
            raise AttributeError(name)
        if repo_method(t, "__setattr__") is not None:
            raise Unsupported("__setattr__")
        if not isinstance(obj, type):
            for k in t.__mro__:
                if name in k.__dict__:
                    v = k.__dict__[name]
                    if isinstance(v, property):
                        if v.fset is None:
                            raise AttributeError("can't set attribute")
                        self.call(v.fset, (obj, value), {})
                        return
                    break
        self.touch(obj)
        setattr(obj, name, value)

    # ------------------------------------------------------------ subscripts
    def getitem(self, obj, k):
        if isinstance(obj, (dict, SymDict)):
            ok, v = self.dict_get(obj, k)
            if not self.truth(ok):
                raise KeyError("key")
            return v
        if isinstance(obj, SymList256):
            i = self.index(k)
            if isinstance(i, int):
                if not -obj.n <= i < obj.n:
                    raise IndexError("list index out of range")
                return mkint(z3.Select(obj.arr, i % obj.n))
            if self.truth(lor(mkbool(zi(i) < -obj.n), mkbool(zi(i) >= obj.n))):
                raise IndexError("list index out of range")
            return mkint(z3.Select(obj.arr, zi(ite(mkbool(zi(i) < 0), i + obj.n, i))))
        if isinstance(obj, (list, tuple)):
            if isinstance(k, slice):
                k = slice(*[self.index(x) if x is not None else None for x in (k.start, k.stop, k.step)])
                r = self.list_slice(obj, k)
                return self.born(ByteArr(r)) if isinstance(obj, ByteArr) else r
            return self.list_index(obj, self.index(k))
        if isinstance(obj, (SymBytes,)):
            if getattr(obj, "raw_index", False):
                return obj[k]
            if isinstance(k, slice):
                k = slice(*[self.conc(x) for x in (k.start, k.stop, k.step)])
            elif isinstance(k, SymInt):
                k = self.path.concretize(k, 16)
            return obj[k]
        if isinstance(obj, (bytes, str)):
            if isinstance(k, slice):
                k = slice(*[self.conc(x) for x in (k.start, k.stop, k.step)])
                return obj[k]
            i = self.index(k)
            if isinstance(i, SymInt):
                i = self.path.concretize(i, 64)
            return obj[i]
        if isinstance(obj, SymStr):
            raise Unsupported("indexing symbolic text")
        m = repo_method(type(obj), "__getitem__")
        if m is not None:
            return self.call(m, (obj, k), {})
        if self.deep_sym(k):
            raise Unsupported("subscript of %s" % type(obj))
        return obj[k]

    def conc(self, x):
        return self.path.concretize(x, 16) if isinstance(x, SymInt) else x

    def index(self, k):
        if isinstance(k, (int, SymInt)):
            return k
        if isinstance(k, SymBool):
            return sym.toint(k)
        m = repo_method(type(k), "__index__")
        if m is not None:
            return self.call(m, (k,), {})
        if isinstance(k, (str, SymStr, type(None), tuple)) or is_repo_class(type(k)):
            raise TypeError("list indices must be integers or slices, not " + type(k).__name__)
        return operator.index(k)

    def list_index(self, lst, i):
        if not has_block(lst):
            if isinstance(i, SymInt):
                n = len(lst)
                if all(type(x) is int for x in lst) and n > 16:
                    if self.truth(lor(mkbool(zi(i) < -n), mkbool(zi(i) >= n))):
                        raise IndexError("list index out of range")
                    j = zi(ite(mkbool(zi(i) < 0), i + n, i))
                    groups = {}
                    for p, x in enumerate(lst):
                        groups.setdefault(x, []).append(p)
                    base = max(groups, key=lambda x: len(groups[x]))
                    e = z3.IntVal(base)
                    for x, ps in groups.items():
                        if x != base:
                            e = z3.If(z3.Or([j == q for q in ps]), z3.IntVal(x), e)
                    return mkint(e)
                if n == 0:
                    raise IndexError("list index out of range")
                i = self.path.concretize(i, max(n * 2 + 4, 16)) if self.path.valid(
                    z3.And(zi(i) >= -n, zi(i) < n)) else self.oob(i, n)
            return lst[i]
        parts = list(lst)
        if isinstance(i, int) and i < 0:
            k = -1
            for x in reversed(parts):
                if isinstance(x, Maybe):
                    raise Unsupported("indexing a filtered list")
                if isinstance(x, Block):
                    if self.truth(mkbool(zi(x.n) >= k - i + 0 + 1 + (-k) * 0 if False else zi(x.n) > (k - i))):
                        return x.get(self, x.n - 1 - (k - i))
                    if k != i and not self.path.valid(zi(x.n) == 0):
                        raise Unsupported("indexing through a block")
                    if not self.path.valid(zi(x.n) == 0):
                        raise Unsupported("indexing through a block")
                else:
                    if k == i:
                        return x
                    k -= 1
            raise IndexError("list index out of range")
        off = 0
        if isinstance(i, SymInt) and not self.path.valid(zi(i) >= 0):
            if self.path.fork(zi(i) < 0):
                raise Unsupported("negative symbolic index")
        for x in parts:
            if isinstance(x, Maybe):
                raise Unsupported("indexing a filtered list")
            if isinstance(x, Block):
                if self.truth(mkbool(zi(i) < zi(off + x.n))):
                    return x.get(self, mkint(zi(i) - zi(off)))
                off = off + x.n
            else:
                if self.truth(mkbool(zi(i) == zi(off))):
                    return x
                off = off + 1
        raise IndexError("list index out of range")

    def oob(self, i, n):
        if self.path.fork(z3.Or(zi(i) < -n, zi(i) >= n)):
            raise IndexError("list index out of range")
        return self.path.concretize(i, n * 2 + 4)

    def list_slice(self, lst, k):
        if not has_block(lst):
            return lst[slice(*[self.conc(x) for x in (k.start, k.stop, k.step)])]
        lo, hi, st = k.start, k.stop, k.step
        if st not in (None, 1) or hi is not None or not isinstance(lo, (int, type(None))) or (lo or 0) < 0:
            raise Unsupported("slice of an unbounded list")
        lo = lo or 0
        parts = list(lst)
        while lo and parts and not isinstance(parts[0], (Block, Maybe)):
            parts.pop(0)
            lo -= 1
        if lo and parts:
            b = parts[0]
            if isinstance(b, Maybe) or b._get is None:
                raise Unsupported("slice of an unbounded list")
            if self.truth(mkbool(zi(b.n) >= lo)):
                d = lo
                nb = Block(b.n - d, None, lambda it, i: b.get(it, i + d), b.name + "[%d:]" % d)
                nb.ghost["shift"] = (b, d)
                parts[0] = nb
            else:
                raise Unsupported("slice through a block")
        return type(lst)(parts) if type(lst) in (list, tuple) else parts

    def setitem(self, obj, k, v):
        if isinstance(obj, (dict, SymDict)):
            self.dict_set(obj, k, v)
            return
        if isinstance(obj, SymList256):
            i = self.index(k)
            if self.truth(lor(mkbool(zi(i) < -obj.n), mkbool(zi(i) >= obj.n))):
                raise IndexError("list assignment index out of range")
            if self.path.journal:
                raise Unsupported("SMT list write inside a block loop")
            obj.arr = z3.Store(obj.arr, zi(ite(mkbool(zi(i) < 0), i + obj.n, i)), zi(v))
            return
        if isinstance(obj, list):
            if isinstance(k, slice):
                if k.start is None and k.stop is None and k.step is None:
                    self.touch(obj)
                    obj[:] = self.elements(v, True)
                    return
                if has_block(obj):
                    raise Unsupported("slice assignment")
                self.touch(obj)
                obj[slice(*[self.conc(x) for x in (k.start, k.stop, k.step)])] = self.elements(v, True)
                return
            i = self.index(k)
            if has_block(obj) or isinstance(i, SymInt):
                if isinstance(i, SymInt) and not has_block(obj) and len(obj) <= 16:
                    i = self.oob(i, len(obj))
                else:
                    raise Unsupported("symbolic list assignment")
            self.touch(obj)
            obj[i] = v
            return
        m = repo_method(type(obj), "__setitem__")
        if m is not None:
            self.call(m, (obj, k, v), {})
            return
        if self.deep_sym(k) or self.deep_sym(v):
            raise Unsupported("item assignment on %s" % type(obj))
        raise Unsupported("item assignment on %s" % type(obj))

    def delitem(self, obj, k):
        if isinstance(obj, SymDict):
            if not self.truth(obj.lookup(self, k)[0]):
                raise KeyError("key")
            obj.delete(self, k)
            return
        if isinstance(obj, dict):
            if self.symbolic_key(k) or id(obj) in self.path.overlay:
                raise Unsupported("del with a symbolic key")
            self.touch(obj)
            del obj[k]
            return
        if isinstance(obj, list):
            if has_block(obj):
                if isinstance(k, slice) and k.start is None and k.stop is None:
                    self.touch(obj)
                    obj[:] = []
                    return
                if not isinstance(k, slice) and self.conc(k) in (0, -1) and not isinstance(obj[self.conc(k)], Block):
                    self.touch(obj)
                    del obj[self.conc(k)]
                    return
                raise Unsupported("del in an unbounded list")
            self.touch(obj)
            del obj[k if isinstance(k, slice) else self.conc(k)]
            return
        raise Unsupported("del on %s" % type(obj))

    # ------------------------------------------------------------ calls
    def call(self, f, args=(), kwargs=None):
        kwargs = kwargs or {}
        self.path.steps += 1
        if self.path.steps > 400000:
            raise Unsupported("too many steps")
        if isinstance(f, types.MethodType):
            return self.call(f.__func__, (f.__self__,) + tuple(args), kwargs)
        if isinstance(f, InterpFunction):
            return self.call_node(f.node, f.frame.globals, f.frame, f.cls, f.defaults, f.kwdefaults, args, kwargs, f.__name__)
        if is_repo_function(f):
            q = f.__qualname__
            h = self.hooks.get(f)
            if h is not None:
                return h(self, args, kwargs)
            node, cls = node_of_code(f.__code__)
            saw(f)
            parent = None
            if f.__closure__:
                parent = Frame(f.__globals__, None, cls, q, None)
                for n, c in zip(f.__code__.co_freevars, f.__closure__):
                    try:
                        parent.vars[n] = c.cell_contents
                    except ValueError:
                        pass
            return self.call_node(node, f.__globals__, parent, cls, f.__defaults__ or (), f.__kwdefaults__ or {},
                                  args, kwargs, q)
        if isinstance(f, ModelMethod):
            return f(*args, **kwargs)
        if isinstance(f, type):
            return self.instantiate(f, args, kwargs)
        if isinstance(f, (staticmethod,)):
            return self.call(f.__func__, args, kwargs)
        if isinstance(f, functools.partial):
            return self.call(f.func, tuple(f.args) + tuple(args), {**f.keywords, **kwargs})
        if isinstance(f, (operator.attrgetter, operator.itemgetter)) and len(args) == 1 and not kwargs:
            return self.getter(f, args[0])
        m = _BUILTINS.get(f) if self.hashable(f) else None
        if m is not None:
            return m(self, *args, **kwargs)
        if isinstance(f, types.BuiltinMethodType) and getattr(f, "__self__", None) is not None \
                and not isinstance(f.__self__, (types.ModuleType, type)):
            s = f.__self__
            if s is sys.stdout or s is sys.__stdout__:
                return b_print(self)
            if isinstance(s, (list, dict, set)):
                return ModelMethod(self, s, f.__name__)(*args, **kwargs)
            if isinstance(s, str):
                return self.str_method(s, f.__name__, args, kwargs)
        if isinstance(f, (types.WrapperDescriptorType, types.MethodWrapperType, types.MethodDescriptorType)):
            name = getattr(f, "__name__", "")
            if name == "__init__":
                return None if not self.deep_sym(args[1:]) else self._unsup("native __init__")
            if name in ("__eq__", "__ne__", "__str__", "__hash__") or not self.deep_sym(args):
                if not self.deep_sym(args):
                    return f(*args, **kwargs)
        if repo_method(type(f), "__call__") is not None:
            return self.call(repo_method(type(f), "__call__"), (f,) + tuple(args), kwargs)
        if getattr(f, "_vf_native", False):
            return f(self, *args, **kwargs)
        if self.deep_sym(list(args)) or self.deep_sym(dict(kwargs)):
            o = getattr(f, "__self__", None)
            if isinstance(o, re.Pattern) and f.__name__ in ("sub", "findall"):
                # pattern.method(...) is re.method(pattern text, ..., flags)
                if f.__name__ == "sub":
                    return b_sub(self, o.pattern, *args, flags=o.flags & ~re.UNICODE, **kwargs)
                if len(args) == 1 and not kwargs:
                    return b_findall(self, o.pattern, *args, flags=o.flags & ~re.UNICODE)
            raise Unsupported("call of %s with symbolic arguments" % (getattr(f, "__qualname__", None) or f,))
        return f(*args, **kwargs)

    def _unsup(self, what):
        raise Unsupported(what)

    @staticmethod
    def hashable(f):
        try:
            hash(f)
            return True
        except TypeError:
            return False

    def call_method(self, obj, name, args=(), kwargs=None):
        return self.call(self.getattr(obj, name), args, kwargs)

    def instantiate(self, c, args, kwargs):
        m = _BUILTINS.get(c)
        if m is not None:
            return m(self, *args, **kwargs)
        if is_repo_class(c):
            for base, hook in self.class_hooks:
                if issubclass(c, base):
                    r = hook(self, c, args, kwargs)
                    if r is not NotImplemented:
                        return r
            meta = type(c)
            if meta is not type and repo_method(meta, "__call__") is not None:
                raise Unsupported("metaclass __call__")
            if issubclass(c, BaseException):
                return c(*args, **kwargs) if not self.deep_sym(list(args)) else c(*["?"])
            if isinstance(c, enum.EnumMeta):
                if len(args) != 1 or kwargs or issubclass(c, enum.Flag) and issym(args[0]) or any("_missing_" in k.__dict__ and is_repo_class(k) for k in c.__mro__):
                    raise Unsupported("enumeration")
                if issym(args[0]):
                    for m in c:
                        if self.truth(self.eq(args[0], m.value)):
                            return m
                    raise ValueError("not a valid %s" % c.__name__)
                return c(args[0])
            new = repo_method(c, "__new__")
            if new is not None:
                obj = self.call(new, (c,) + tuple(args), kwargs)
                if not isinstance(obj, c):
                    return obj
            elif c.__new__ is object.__new__:
                obj = self.born(object.__new__(c))
            else:
                if self.deep_sym(list(args)):
                    raise Unsupported("native __new__ with symbolic arguments")
                return c(*args, **kwargs)
            init = repo_method(c, "__init__")
            if init is not None:
                if not is_repo_function(init) and not isinstance(init, InterpFunction):
                    if self.deep_sym(list(args)) or self.deep_sym(dict(kwargs)):
                        raise Unsupported("generated __init__ with symbolic arguments")
                    init(obj, *args, **kwargs)
                    return obj
                r = self.call(init, (obj,) + tuple(args), kwargs)
                if r is not None:
                    raise TypeError("__init__() should return None")
            elif args or kwargs:
                raise TypeError("%s() takes no arguments" % c.__name__)
            return obj
        if issubclass(c, BaseException):
            if self.deep_sym(list(args)):
                return c(*[a if not self.deep_sym(a) else "<symbolic>" for a in args])
            return c(*args, **kwargs)
        if self.deep_sym(list(args)) or self.deep_sym(dict(kwargs)):
            raise Unsupported("construction of %s with symbolic arguments" % c.__name__)
        return c(*args, **kwargs)

    def bind(self, a, defaults, kwdefaults, args, kwargs, name):
        vars = {}
        pos = [x.arg for x in a.posonlyargs + a.args]
        args = tuple(args)
        kwargs = dict(kwargs)
        if len(args) > len(pos):
            if a.vararg is None:
                raise TypeError("%s() takes %d positional arguments but %d were given" % (name, len(pos), len(args)))
            vars[a.vararg.arg] = tuple(args[len(pos):])
            args = args[:len(pos)]
        elif a.vararg is not None:
            vars[a.vararg.arg] = ()
        for n, v in zip(pos, args):
            vars[n] = v
        posonly = {x.arg for x in a.posonlyargs}
        extra = {}
        kwonly = [x.arg for x in a.kwonlyargs]
        for n, v in kwargs.items():
            if (n in pos and n not in posonly) or n in kwonly:
                if n in vars:
                    raise TypeError("%s() got multiple values for argument '%s'" % (name, n))
                vars[n] = v
            elif a.kwarg is not None:
                extra[n] = v
            else:
                raise TypeError("%s() got an unexpected keyword argument '%s'" % (name, n))
        if a.kwarg is not None:
            vars[a.kwarg.arg] = extra
        nd = len(pos) - len(defaults)
        for i, n in enumerate(pos):
            if n not in vars:
                if i >= nd:
                    vars[n] = defaults[i - nd]
                else:
                    raise TypeError("%s() missing required positional argument: '%s'" % (name, n))
        for n in kwonly:
            if n not in vars:
                if n in kwdefaults:
                    vars[n] = kwdefaults[n]
                else:
                    raise TypeError("%s() missing required keyword-only argument: '%s'" % (name, n))
        return vars

    def call_node(self, node, globals, parent, cls, defaults, kwdefaults, args, kwargs, name):
        if self.depth > 60:
            raise Unsupported("recursion too deep")
        vars = self.bind(node.args, defaults, kwdefaults, args, kwargs, name)
        fr = Frame(globals, parent, cls, name, node)
        fr.vars = vars
        pos = node.args.posonlyargs + node.args.args
        if pos:
            fr.first = vars.get(pos[0].arg)
        self.depth += 1
        self.frames.append(fr)
        try:
            if isinstance(node, ast.Lambda):
                return self.ev(node.body, fr)
            if isinstance(node, ast.AsyncFunctionDef):
                raise Unsupported("async function")
            if _is_generator(node):
                take, self.consumer = self.consumer, None
                if take is not None:
                    # consumed by a for statement: its body runs at each yield
                    fr.yields = take
                    self.block(node.body, fr)
                    return None
                fr.yields = []
                mark = self.heap_mark()
                self.born(fr.yields)
                try:
                    self.block(node.body, fr)
                except Exception:
                    self.heap_join(self.path.journal.pop())
                    raise
                self.heap_unchanged(mark, fr.yields)
                return EagerIter(fr.yields, self, lazy=True)
            st = self.block(node.body, fr)
            r = st[1] if st is not None and st[0] == "return" else None
            if self.unused:
                self.unused = [g for g in self.unused if not g.used]
                if any(g is not r for g in self.unused):
                    raise Unsupported("generator with side effects")
            return r
        finally:
            self.depth -= 1
            self.frames.pop()

    def heap_mark(self):
        self.path.journal.append({})
        return len(self.births)

    def heap_join(self, j):
        """what changed inside changed outside too"""
        if self.path.journal:
            for k, v in j.items():
                self.path.journal[-1].setdefault(k, v)

    def heap_unchanged(self, mark, yields):
        """A generator body is run eagerly: sound only if it changes no pre-existing object."""
        j = self.path.journal.pop()
        born = {id(o) for o in self.births[mark:]}
        for oid, (obj, kind, old) in j.items():
            if obj is yields or oid in born:
                continue
            now = (list(obj) if kind == "list" else dict(obj) if kind == "dict" else
                   dict(obj.__dict__) if kind == "attrs" else None)
            if kind == "list":
                same = len(now) == len(old) and all(x is y for x, y in zip(now, old))
            elif kind in ("dict", "attrs"):
                same = now.keys() == old.keys() and all(now[k] is old[k] for k in now)
            else:
                same = False
            if not same:
                raise Unsupported("generator with side effects")
        if self.path.journal:
            for k, v in j.items():
                self.path.journal[-1].setdefault(k, v)

    # ------------------------------------------------------------ statements
    def block(self, body, fr):
        for s in body:
            st = self.stmt(s, fr)
            if st is not None:
                return st
        return None

    def stmt(self, s, fr):
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            raise Unsupported("statement " + type(s).__name__)
        return m(s, fr)

    def s_Expr(self, s, fr):
        self.ev(s.value, fr)

    def s_Pass(self, s, fr):
        return None

    def s_Return(self, s, fr):
        return ("return", self.ev(s.value, fr) if s.value is not None else None)

    def s_Break(self, s, fr):
        return ("break", None)

    def s_Continue(self, s, fr):
        return ("continue", None)

    def s_Global(self, s, fr):
        fr.globaldecl.update(s.names)

    def s_Nonlocal(self, s, fr):
        fr.nonlocaldecl.update(s.names)

    def s_Assign(self, s, fr):
        v = self.ev(s.value, fr)
        for t in s.targets:
            self.assign(t, v, fr)

    def s_AnnAssign(self, s, fr):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, fr), fr)

    def s_AugAssign(self, s, fr):
        t = s.target
        if isinstance(t, ast.Name):
            v = self.binop(s.op, self.name(t.id, fr), self.ev(s.value, fr), True)
            self.store(t.id, v, fr)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, fr)
            n = self.mangle(t.attr, fr)
            v = self.binop(s.op, self.getattr(o, n), self.ev(s.value, fr), True)
            self.setattr(o, n, v)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, fr)
            k = self.ev(t.slice, fr)
            v = self.binop(s.op, self.getitem(o, k), self.ev(s.value, fr), True)
            self.setitem(o, k, v)
        else:
            raise Unsupported("augmented assignment target")

    def s_Delete(self, s, fr):
        for t in s.targets:
            if isinstance(t, ast.Name):
                if t.id not in fr.vars:
                    raise UnboundLocalError(t.id)
                del fr.vars[t.id]
            elif isinstance(t, ast.Attribute):
                o = self.ev(t.value, fr)
                self.touch(o)
                delattr(o, self.mangle(t.attr, fr))
            elif isinstance(t, ast.Subscript):
                self.delitem(self.ev(t.value, fr), self.ev(t.slice, fr))
            else:
                raise Unsupported("del target")

    def s_If(self, s, fr):
        c = self.ev(s.test, fr)
        if isinstance(c, SymInt):
            c = mkbool(c.e != 0)
        if isinstance(c, SymBool) and fr.choosing and self.maybe_append(c, s, fr):
            return None
        if self.truth(c):
            return self.block(s.body, fr)
        return self.block(s.orelse, fr)

    def maybe_append(self, c, s, fr):
        """if c: xs.append(v), within a loop over many: v is an element if c (no case split)"""
        b = s.body[0]
        if s.orelse or len(s.body) != 1 or not isinstance(b, ast.Expr) or not isinstance(b.value, ast.Call):
            return False
        f = b.value.func
        if not isinstance(f, ast.Attribute) or f.attr != "append" or not isinstance(f.value, ast.Name) or len(b.value.args) != 1 or b.value.keywords:
            return False
        xs = fr.vars.get(f.value.id)
        if type(xs) is not list or any(isinstance(x, Block) for x in xs) or self.path.valid(c) or self.path.valid(lnot(c)):
            return False
        if not isinstance(b.value.args[0], (ast.Name, ast.Attribute, ast.Constant)):
            return False
        v = self.ev(b.value.args[0], fr)
        if not isinstance(v, (int, str)) and not is_repo_class(type(v)):
            return False
        self.touch(xs)
        xs.append(Maybe(c, v))
        return True

    def s_Assert(self, s, fr):
        if not self.truth(self.ev(s.test, fr)):
            msg = ()
            if s.msg is not None:
                m = self.ev(s.msg, fr)
                msg = (m if not self.deep_sym(m) else "<symbolic>",)
            raise AssertionError(*msg)

    def s_Raise(self, s, fr):
        if s.exc is None:
            if not self.catch_log:
                raise RuntimeError("No active exception to reraise")
            raise self.catch_log[-1]
        e = self.ev(s.exc, fr)
        if isinstance(e, type) and issubclass(e, BaseException):
            e = self.call(e, (), {})
        if not isinstance(e, BaseException):
            raise TypeError("exceptions must derive from BaseException")
        if s.cause is not None:
            self.ev(s.cause, fr)
        raise e

    def s_Try(self, s, fr):
        st = None
        try:
            try:
                st = self.block(s.body, fr)
            except (Unsupported, PathEnd, Consumed, NotLazy):
                raise
            except RecursionError:
                raise Unsupported("recursion")
            except BaseException as e:
                for h in s.handlers:
                    if h.type is None:
                        ok = True
                    else:
                        t = self.ev(h.type, fr)
                        ok = isinstance(e, t)
                    if ok:
                        if h.name:
                            fr.vars[h.name] = e
                        self.catch_log.append(e)
                        try:
                            return self.block(h.body, fr)
                        finally:
                            self.catch_log.pop()
                            if h.name:
                                fr.vars.pop(h.name, None)
                raise
            else:
                if st is None and s.orelse:
                    st = self.block(s.orelse, fr)
        finally:
            if s.finalbody:
                import sys
                ex = sys.exc_info()[1]
                if not isinstance(ex, (Unsupported, PathEnd)):
                    st2 = self.block(s.finalbody, fr)
                    if st2 is not None:
                        return st2
        return st

    def s_With(self, s, fr):
        if len(s.items) != 1:
            raise Unsupported("with several managers")
        it = s.items[0]
        cm = self.ev(it.context_expr, fr)
        v = self.call_method(cm, "__enter__")
        if it.optional_vars is not None:
            self.assign(it.optional_vars, v, fr)
        try:
            st = self.block(s.body, fr)
        except (Unsupported, PathEnd, NotLazy):
            raise
        except BaseException as e:
            if not self.truth(self.call_method(cm, "__exit__", (type(e), e, None))):
                raise
            return None
        self.call_method(cm, "__exit__", (None, None, None))
        return st

    def s_Import(self, s, fr):
        for a in s.names:
            m = __import__(a.name)
            if a.asname:
                for part in a.name.split(".")[1:]:
                    m = getattr(m, part)
                self.store(a.asname, m, fr)
            else:
                self.store(a.name.split(".")[0], m, fr)

    def s_ImportFrom(self, s, fr):
        m = __import__(s.module or "", fr.globals, None, [a.name for a in s.names], s.level)
        for a in s.names:
            if a.name == "*":
                raise Unsupported("import *")
            try:
                v = getattr(m, a.name)
            except AttributeError:
                raise ImportError("cannot import name %r" % a.name)
            self.store(a.asname or a.name, v, fr)

    def s_FunctionDef(self, s, fr):
        f = self.make_function(s, fr, s.name)
        for d in reversed(s.decorator_list):
            f = self.call(self.ev(d, fr), (f,), {})
        self.store(s.name, f, fr)

    def make_function(self, node, fr, name):
        a = node.args
        return InterpFunction(self, node, fr, fr.cls, tuple(self.ev(d, fr) for d in a.defaults),
                              {k.arg: self.ev(d, fr) for k, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None}, name)

    # -- loops
    @staticmethod
    def draining(s):
        """`while L: ... L.pop(0) ...`, once in the first statement, unconditionally: (L, the same loop over the elements)"""
        d = getattr(s, "_drain", None)
        if d is None:
            d = s._drain = Interp.draining_(s) or (None, None)
        return d

    @staticmethod
    def draining_(s):
        t = s.test
        if isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.comparators[0], ast.Constant) and t.comparators[0].value == 0 \
                and isinstance(t.ops[0], (ast.Gt, ast.NotEq)):
            t = t.left
            if not (isinstance(t, ast.Call) and isinstance(t.func, ast.Name) and t.func.id == "len"):
                return None
        if isinstance(t, ast.Call) and isinstance(t.func, ast.Name) and t.func.id == "len" and len(t.args) == 1 and not t.keywords:
            t = t.args[0]
        x = t
        while isinstance(x, ast.Attribute):
            x = x.value
        if not isinstance(x, ast.Name) or s.orelse or not isinstance(s.body[0], (ast.Expr, ast.Assign)):
            return None
        want = ast.dump(t)
        found = []

        def pops(n):
            return isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "pop" and len(n.args) == 1 and not n.keywords \
                and isinstance(n.args[0], ast.Constant) and n.args[0].value == 0 and ast.dump(n.func.value) == want
        body = _copy.deepcopy(s.body)
        for n in ast.walk(ast.Module(body, [])):
            if isinstance(n, (ast.Break, ast.Return, ast.Yield, ast.YieldFrom, ast.Await)):
                return None

        def swap(n):
            for f, v in ast.iter_fields(n):
                for i, c in enumerate(v if isinstance(v, list) else [v]):
                    if not isinstance(c, ast.AST) or isinstance(c, (ast.Lambda, ast.IfExp, ast.BoolOp, ast.Compare, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                        continue
                    if pops(c):
                        found.append(c)
                        e = ast.copy_location(ast.Name("__popped__", ast.Load()), c)
                        if isinstance(v, list):
                            v[i] = e
                        else:
                            setattr(n, f, e)
                    else:
                        swap(c)
        swap(body[0])
        if len(found) != 1 or any(pops(n) for n in ast.walk(ast.Module(body, []))):
            return None
        loop = ast.For(ast.Name("__popped__", ast.Store()), ast.Name("__draining__", ast.Load()), body, [], None)
        return t, ast.fix_missing_locations(ast.copy_location(loop, s))

    def drain(self, t, lst, loop, fr):
        """the body sees each element in turn; what is left of the list must not matter to it"""
        items = list(lst)
        self.touch(lst)
        lst[:] = [Drained()]
        fr.vars["__draining__"] = items
        try:
            st = self.s_For(loop, fr)
            if st is not None or self.ev(t, fr) is not lst or len(lst) != 1 or not isinstance(lst[0], Drained):
                raise Unsupported("a list changed while it is emptied")
            self.touch(lst)
            lst.clear()
        finally:
            fr.vars.pop("__draining__", None)
            fr.vars.pop("__popped__", None)
        return None

    def counting(self, s, fr):
        """while v < e: ...; v += 1, v and e numbers that nothing else in the body changes: for v in range(v, e)"""
        t = s.test
        if not (isinstance(t, ast.Compare) and len(t.ops) == 1 and type(t.ops[0]) in (ast.Lt, ast.LtE) and isinstance(t.left, ast.Name) and not s.orelse and len(s.body) > 1):
            return None
        v, e, last = t.left.id, t.comparators[0], s.body[-1]
        if not (isinstance(last, ast.AugAssign) and isinstance(last.op, ast.Add) and isinstance(last.target, ast.Name) and last.target.id == v
                and isinstance(last.value, ast.Constant) and type(last.value.value) is int and last.value.value == 1):
            return None
        names = {v}
        for n in ast.walk(e):
            if isinstance(n, ast.Name):
                names.add(n.id)
            elif isinstance(n, ast.Call) and not (isinstance(n.func, ast.Name) and n.func.id == "int" and len(n.args) == 1 and not n.keywords) \
                    or not isinstance(n, (ast.Call, ast.Constant, ast.BinOp, ast.operator, ast.expr_context)):
                return None
        for n in ast.walk(ast.Module(s.body[:-1], [])):
            if isinstance(n, (ast.Continue, ast.Break, ast.Return, ast.Global, ast.Nonlocal, ast.Lambda, ast.FunctionDef, ast.Yield, ast.YieldFrom, ast.Await, ast.GeneratorExp)) \
                    or isinstance(n, ast.Name) and n.id in names and not isinstance(n.ctx, ast.Load):
                return None
        if any(k not in fr.vars for k in names - {"int"}) or self.ev(ast.Name("int", ast.Load()), fr) is not int or any(isinstance(fr.vars[k], list) for k in names if k in fr.vars):
            return None
        a, b = fr.vars[v], self.ev(e, fr)
        if not all(type(x) is int or isinstance(x, SymInt) for x in (a, b)) or type(a) is type(b) is int:
            return None
        if isinstance(t.ops[0], ast.LtE):
            b = b + 1
        fr.vars["__counted__"] = SymRange(a, b)
        loop = ast.For(ast.Name(v, ast.Store()), ast.Name("__counted__", ast.Load()), s.body[:-1], [], None)
        try:
            st = self.s_For(ast.fix_missing_locations(ast.copy_location(loop, s)), fr)
        finally:
            fr.vars.pop("__counted__", None)
        if st is not None:
            raise Unsupported("loop left early")
        fr.vars[v] = ite(mkbool(zi(a) < zi(b)), b, a)
        return (None,)

    def s_While(self, s, fr):
        contract = self.loop_contracts.get(fr.name)
        if contract is None:
            t, loop = self.draining(s)
            if t is not None:
                lst = self.ev(t, fr)
                if type(lst) is list and has_block(lst) and not any(isinstance(x, Drained) or "pop" in x.ghost for x in lst if isinstance(x, Block)):
                    return self.drain(t, lst, loop, fr)
            r = self.counting(s, fr)
            if r is not None:
                return r[0]
        n = 0
        while True:
            if contract is not None:
                r = contract.head(self, fr, s, n)
                if r == "exit":
                    break
            if not self.truth(self.ev(s.test, fr)):
                return self.block(s.orelse, fr)
            st = self.block(s.body, fr)
            if st is not None:
                if st[0] == "break":
                    break
                if st[0] == "return":
                    return st
            n += 1
            if n > 3000:
                raise Unsupported("loop without a bound or invariant")
        return None

    @staticmethod
    def unnested(s, e):
        """for t in (f(x) for x in l if c(x)): ... is for x in l: if c(x): t = f(x); ..."""
        if len(e.generators) != 1 or e.generators[0].is_async:
            return None
        g = _copy.deepcopy(e.generators[0])
        elt = _copy.deepcopy(e.elt)
        parts = [g.target, elt] + g.ifs
        own = {n.id for n in ast.walk(g.target) if isinstance(n, ast.Name)}
        for n in (n for x in parts for n in ast.walk(x)):
            if isinstance(n, (ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp, ast.NamedExpr)):
                return None
            if isinstance(n, ast.Name) and n.id in own:
                n.id = "__own_%s__" % n.id.strip("_")
        body = [ast.Assign([_copy.deepcopy(s.target)], elt)] + s.body
        for c in reversed(g.ifs):
            body = [ast.If(c, body, [])]
        return ast.fix_missing_locations(ast.copy_location(ast.For(g.target, g.iter, body, [], None), s))

    def as_genexp(self, e, fr):
        """map(f, l) and filter(f, l), f and l plain names, as the generator expressions they stand for"""
        if not (isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in ("map", "filter") and len(e.args) == 2 and not e.keywords
                and all(isinstance(n, (ast.Name, ast.Attribute, ast.expr_context)) for a in e.args for n in ast.walk(a))):
            return e
        if self.ev(e.func, fr) is not {"map": map, "filter": filter}[e.func.id]:
            return e
        f, x = self.ev(e.args[0], fr), ast.Name("__element__", ast.Load())
        if f is None and e.func.id == "map":
            return e
        call = x if f is None else ast.Call(e.args[0], [x], [])
        if f is not None:
            # the function is looked up once
            n = sum(k.startswith("__mapped_") for k in fr.vars)
            fr.vars["__mapped_%d__" % n] = f
            call.func = ast.Name("__mapped_%d__" % n, ast.Load())
        gen = ast.comprehension(ast.Name("__element__", ast.Store()), e.args[1], [call] if e.func.id == "filter" else [], 0)
        return ast.fix_missing_locations(ast.copy_location(ast.GeneratorExp(x if e.func.id == "filter" else call, [gen]), e))

    def for_generator(self, s, fr):
        """for x in generator(...): the body runs at each yield (None if it is not one)"""
        e = self.as_genexp(s.iter, fr)
        if isinstance(e, ast.GeneratorExp) and not s.orelse:
            take = Consumer(self, s, fr)

            def emit(f):
                take.take(self.ev(e.elt, f))
                return []
            try:
                self.comp(e.generators, fr, emit, fork=True)
            except NotLazy:
                loop = self.unnested(s, e)
                if loop is None:
                    return None
                st = self.s_For(loop, fr)
                return st if st is not None else (None, None)
            except Consumed as c:
                if c.take is not take:
                    raise
                return c.st if c.st[0] == "return" else (None, None)
            return (None, None)
        if not isinstance(e, ast.Call) or e.keywords and any(k.arg is None for k in e.keywords) or s.orelse:
            return None
        if not all(isinstance(n, (ast.Name, ast.Attribute, ast.expr_context)) for n in ast.walk(e.func)) or isinstance(e.func, ast.Name) and e.func.id == "super":
            return None
        f = self.ev(e.func, fr)
        g = f.__func__ if isinstance(f, types.MethodType) else f
        node = g.node if isinstance(g, InterpFunction) else node_of_code(g.__code__)[0] if is_repo_function(g) and g not in self.hooks else None
        if node is None or isinstance(node, ast.Lambda) or not _is_generator(node) or any(isinstance(n, (ast.Try, ast.With)) for n in ast.walk(node)):
            return None
        args = self.seq(e.args, fr)
        kwargs = {k.arg: self.ev(k.value, fr) for k in e.keywords}
        take = Consumer(self, s, fr)
        saved, self.consumer = self.consumer, take
        try:
            self.call(f, tuple(args), kwargs)
        except NotLazy:
            return None
        except Consumed as c:
            if c.take is not take:
                raise
            return c.st if c.st[0] == "return" else (None, None)
        finally:
            self.consumer = saved
        return (None, None)

    def s_For(self, s, fr):
        st = self.for_generator(s, fr)
        if st is not None:
            return st if st[0] is not None else None
        itv = self.ev(s.iter, fr)
        elems = self.elements(itv)
        live = itv if isinstance(itv, list) and type(itv) is not View and not has_block(itv) else None
        guard = None
        if isinstance(itv, EagerIter):
            def guard():
                itv.pos = min(i_[0], len(itv.elems))
                itv.fresh()
        elif isinstance(itv, (View, dict, set)):
            src = itv.src if type(itv) is View else itv
            keys = list(src)

            def guard():
                if len(src) != len(keys):
                    raise RuntimeError("changed size during iteration")
                if any(a is not b for a, b in zip(src, keys)):
                    raise Unsupported("changed while it is iterated over")
        elif isinstance(itv, list) and live is None:
            old = list(itv)

            def guard():
                if len(itv) != len(old) or any(a is not b for a, b in zip(itv, old)):
                    raise Unsupported("list changed while it is iterated over")
        i_ = [0]
        if len(elems) >= 5 and not has_block(elems):
            saved, fr.choosing = fr.choosing, True
            try:
                return self.for_known(s, fr, elems, live, guard, i_)
            finally:
                fr.choosing = saved
        return self.for_known(s, fr, elems, live, guard, i_)

    def for_known(self, s, fr, elems, live, guard, i_):
        i = 0
        while True:
            i_[0] = i
            if guard and i:
                guard()
            if i >= (len(live) if live is not None else len(elems)):
                break
            x = live[i] if live is not None else elems[i]
            i += 1
            if isinstance(x, Block):
                contract = self.loop_contracts.get(fr.name)
                if contract is not None:
                    st = contract.for_block(self, fr, s, x)
                else:
                    st = self.for_block(s, fr, x)
            elif isinstance(x, Maybe):
                if self.truth(x.cond):
                    self.assign(s.target, x.value, fr)
                    st = self.block(s.body, fr)
                else:
                    continue
            else:
                self.assign(s.target, x, fr)
                st = self.block(s.body, fr)
            if st is not None:
                if st[0] == "break":
                    return None
                if st[0] == "return":
                    return st
        return self.block(s.orelse, fr)

    def for_block(self, s, fr, blk):
        """Loop over an unbounded block: the body is verified for a generic element."""
        before = dict(fr.vars)
        targets = {n.id for n in ast.walk(s.target) if isinstance(n, ast.Name)}

        def run(elem):
            fr.vars.clear()
            fr.vars.update(before)
            self.assign(s.target, elem, fr)
            st = self.block(s.body, fr)
            changed = [n for n, v in fr.vars.items() if before.get(n, FORGOTTEN) is not FORGOTTEN and before[n] is not v and n not in targets]
            if changed:
                cheap = [n for n in changed if not self._read_first(s.body, n)]
                if len(cheap) != len(changed):
                    raise Unsupported("loop carries %s across iterations" % ", ".join(sorted(set(changed) - set(cheap))))
            if st is not None and st[0] in ("break", "return"):
                raise Unsupported("early exit from a loop over an unbounded list")
            return None
        effects = self.generic(blk, run)
        fr.vars.clear()
        fr.vars.update(before)
        self.apply_effects(blk, effects)
        # loop temporaries keep an unknown last value: forget them
        for n in targets:
            fr.vars[n] = FORGOTTEN
        for n in ast.walk(ast.Module(s.body, [])):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                fr.vars[self.mangle(n.id, fr)] = FORGOTTEN
        return None

    @staticmethod
    def _read_first(body, name):
        """Conservative: may `name` be read in the body before it is assigned?"""
        for st in body:
            if isinstance(st, ast.Assign) and len(st.targets) == 1 and isinstance(st.targets[0], ast.Name) \
                    and st.targets[0].id == name:
                return any(isinstance(n, ast.Name) and n.id == name for n in ast.walk(st.value))
            if any(isinstance(n, ast.Name) and n.id == name for n in ast.walk(st)):
                return True
        return False

    def generic(self, blk, run):
        """Run `run(elem)` for every case of the block on a generic element, with all
        paths; returns [(label, elem, pc, appended, raised, value)] and leaves the heap alone."""
        path = self.path
        out = []
        nonempty = mkbool(zi(blk.n) > 0) if blk.n is not None else True
        if nonempty is False or (nonempty is not True and not path.feasible(nonempty)):
            return out
        outer = (path.prefix, path.taken, path.alts)
        depth_frames = len(self.frames)
        try:
            for label, make in blk.cases(self):
                work = [[]]
                while work:
                    path.prefix, path.taken, path.alts = work.pop(), [], []
                    path.solver.push()
                    path.journal.append({})
                    overlay = {k: list(v) for k, v in path.overlay.items()}
                    d = self.depth
                    nborn = len(self.births)
                    na = len(path.solver.assertions())
                    born = set()
                    raised, val = None, None
                    n0 = path.n
                    try:
                        i = path.int("i")
                        path.assume(i.e >= 0)
                        if blk.n is not None:
                            path.assume(i.e < zi(blk.n))
                        elem = make(self, i)
                        if path.check() == z3.unsat:
                            raise PathEnd
                        path.journal.append({})
                        try:
                            try:
                                val = run(elem)
                            except (Unsupported, PathEnd, Consumed, NotLazy):
                                raise
                            except Exception as e:      # noqa: BLE001
                                raised = e
                            j = path.journal[-1]
                            eff = {}
                            born = {id(o) for o in self.births[nborn:]}
                            for oid, (obj, kind, old) in j.items():
                                if oid in born:
                                    continue
                                if kind == "list":
                                    new = list(obj)
                                    if len(new) >= len(old) and all(x is y for x, y in zip(old, new)):
                                        if len(new) > len(old):
                                            eff[oid] = (obj, new[len(old):])
                                        continue
                                    raise Unsupported("loop body rewrites a list")
                                if kind == "attrs":
                                    new = obj.__dict__
                                    if isinstance(obj, type):
                                        raise Unsupported("loop body writes a class attribute")
                                    diff = [k for k in set(new) | set(old)
                                            if new.get(k, _MISSING) is not old.get(k, _MISSING)]
                                    if diff:
                                        raise Unsupported("loop carries state in attribute " + ", ".join(sorted(diff)))
                                    continue
                                if kind in ("dict", "set"):
                                    if kind == "dict" and (set(map(id, obj.values())) == set(map(id, old.values()))
                                                           and len(obj) == len(old)):
                                        continue
                                    raise Unsupported("loop body writes a %s" % kind)
                                raise Unsupported("loop body writes a " + kind)
                            pcs = path.solver.assertions()[na:]
                            out.append((label, elem, z3.And(list(pcs)) if len(pcs) else z3.BoolVal(True), eff, raised, val, i))
                            self.made[i.e.get_id()] = (n0, path.n)
                        finally:
                            self.undo(path.journal.pop(), {id(o) for o in self.births[nborn:]})
                    except PathEnd:
                        pass
                    finally:
                        self.undo(path.journal.pop(), {id(o) for o in self.births[nborn:]})
                        path.overlay = overlay
                        path.solver.pop()
                        self.depth = d
                        del self.frames[depth_frames:]
                    work.extend(path.alts)
                    if len(out) > 3000:
                        raise Unsupported("too many generic cases")
        finally:
            path.prefix, path.taken, path.alts = outer
        return out

    def later(self, effects, recompute):
        """Element j of what a pass over a block made: computed again while nothing has changed,
        else the generic iteration's result at j (its other symbols renamed apart)."""
        return self.generic_at([(e[6], e[2], e[5][0]) for e in effects], recompute)

    def generic_at(self, entries, recompute=None):
        """entries: (position, condition, result) of each case of the generic iteration"""
        stamp = self.stamp

        def get(it, j):
            if recompute is not None and it.stamp == stamp:
                mark = it.heap_mark()
                try:
                    r = recompute(it, j)
                except Exception:
                    it.heap_join(it.path.journal.pop())
                    raise
                if it.stamp == stamp:
                    it.heap_join(it.path.journal.pop())
                    return r
                k = it.path.journal[-1]
                try:
                    it.heap_unchanged(mark, None)
                except Unsupported:
                    raise Unsupported("element computed with side effects")
                it.heap_join(k)
                it.stamp = stamp        # only what is new was written
                return r
            p = it.path
            i, pc, v = entries[p.choose(len(entries))] if len(entries) > 1 else entries[0]
            n0, n1 = it.made[i.e.get_id()]
            pairs = [(i.e, zi(j))]
            seen = set()

            def collect(e):
                if e.get_id() in seen:
                    return
                seen.add(e.get_id())
                if z3.is_quantifier(e):
                    raise Unsupported("quantified element condition")
                if z3.is_const(e) and e.decl().kind() == z3.Z3_OP_UNINTERPRETED and not e.eq(i.e):
                    k = e.decl().name().rpartition("!")[2]
                    if k.isdigit() and n0 < int(k) <= n1:
                        pairs.append((e, z3.Const(p.fresh(e.decl().name().partition("!")[0]), e.sort())))
                for c in e.children():
                    collect(c)
            collect(pc)
            v = subst_value(it, v, pairs, collect)
            p.assume(z3.substitute(pc, *pairs))
            if p.check() == z3.unsat:
                raise PathEnd
            return v
        return get

    def apply_effects(self, blk, effects):
        raising = [e for e in effects if e[4] is not None]
        if raising:
            # some elements raise: fork on whether one of them is there
            k = self.path.choose(1 + len(raising))
            if k:
                e = raising[k - 1]
                i = e[6]
                self.path.assume(z3.And(i.e >= 0, i.e < zi(blk.n)) if blk.n is not None else True)
                self.path.assume(e[2])
                raise e[4]
            for e in raising:
                self.path.assume(z3.ForAll([e[6].e], z3.Implies(
                    z3.And(e[6].e >= 0, e[6].e < zi(blk.n)), z3.Not(e[2]))))
                for h in getattr(self, "forall_hooks", ()):
                    h(self, blk, e)
            effects = [e for e in effects if e[4] is None]
        lists = {}
        for e in effects:
            for oid, (obj, app) in e[3].items():
                lists[oid] = obj
        for oid, lst in lists.items():
            results = []
            same = True
            for label, elem, pc, eff, raised, val, i in effects:
                app = eff.get(oid, (lst, []))[1]
                results.append((label, elem, pc, list(app)))
                if not (len(app) == 1 and app[0] is elem):
                    same = False
            self.touch(lst)
            if same:
                lst.append(blk)
            else:
                one = all(len(r[3]) == 1 for r in results)
                get = None
                if one and blk._get is not None and all(simple_value(r[3][0]) for r in results):
                    get = self.generic_at([(e[6], e[2], r[3][0]) for e, r in zip(effects, results)])
                lst.append(Derived(blk, results, blk.n if one else None, get))

    # ------------------------------------------------------------ names
    def mangle(self, n, fr):
        if n.startswith("__") and not n.endswith("__") and fr.cls:
            return "_%s%s" % (fr.cls.lstrip("_"), n)
        return n

    def name(self, n, fr):
        n = self.mangle(n, fr)
        if n in fr.globaldecl:
            f = None
        else:
            f = fr
            first = True
            while f is not None:
                if n in f.vars:
                    if f.vars[n] is FORGOTTEN:
                        raise Unsupported("%s after a loop over an unbounded list" % n)
                    return f.vars[n]
                if first and n in self.local_names(f):
                    raise UnboundLocalError("cannot access local variable '%s'" % n)
                first = False
                f = f.parent
        if n in fr.globals:
            return fr.globals[n]
        b = fr.globals.get("__builtins__", builtins)
        b = b if isinstance(b, dict) else b.__dict__
        if n in b:
            return b[n]
        raise NameError("name '%s' is not defined" % n)

    @staticmethod
    def local_names(f):
        if f.locals_set is None:
            s = set()
            if f.node is not None and not isinstance(f.node, ast.Lambda):
                for st in f.node.body:
                    for n in _walk_scope(st):
                        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                            s.add(n.id)
                s -= f.nonlocaldecl | f.globaldecl
            f.locals_set = s
        return f.locals_set

    def store(self, n, v, fr):
        n = self.mangle(n, fr)
        if n in fr.globaldecl:
            self.touch(fr.globals)
            fr.globals[n] = v
            return
        if n in fr.nonlocaldecl:
            f = fr.parent
            while f is not None:
                if n in f.vars:
                    if self.path.journal:
                        raise Unsupported("nonlocal write inside a block loop")
                    f.vars[n] = v
                    return
                f = f.parent
        fr.vars[n] = v

    def assign(self, t, v, fr):
        if isinstance(t, ast.Name):
            self.store(t.id, v, fr)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.ev(t.value, fr), self.mangle(t.attr, fr), v)
        elif isinstance(t, ast.Subscript):
            self.setitem(self.ev(t.value, fr), self.ev(t.slice, fr), v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            xs = self.elements(v)
            if has_block(xs):
                raise Unsupported("unpacking an unbounded list")
            stars = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            if stars:
                i = stars[0]
                tail = len(t.elts) - i - 1
                if len(xs) < len(t.elts) - 1:
                    raise ValueError("not enough values to unpack")
                for e, x in zip(t.elts[:i], xs[:i]):
                    self.assign(e, x, fr)
                self.assign(t.elts[i].value, xs[i:len(xs) - tail], fr)
                for e, x in zip(t.elts[i + 1:], xs[len(xs) - tail:]):
                    self.assign(e, x, fr)
                return
            if len(xs) != len(t.elts):
                raise ValueError("not enough values to unpack" if len(xs) < len(t.elts) else "too many values to unpack")
            for e, x in zip(t.elts, xs):
                self.assign(e, x, fr)
        else:
            raise Unsupported("assignment target " + type(t).__name__)

    # ------------------------------------------------------------ expressions
    def ev(self, e, fr):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            raise Unsupported("expression " + type(e).__name__)
        return m(e, fr)

    def e_Constant(self, e, fr):
        return e.value

    def e_Name(self, e, fr):
        return self.name(e.id, fr)

    def e_NamedExpr(self, e, fr):
        v = self.ev(e.value, fr)
        self.store(e.target.id, v, fr)
        return v

    def e_Attribute(self, e, fr):
        return self.getattr(self.ev(e.value, fr), self.mangle(e.attr, fr))

    def e_Subscript(self, e, fr):
        return self.getitem(self.ev(e.value, fr), self.ev(e.slice, fr))

    def e_Slice(self, e, fr):
        return slice(*[None if x is None else self.ev(x, fr) for x in (e.lower, e.upper, e.step)])

    def e_Tuple(self, e, fr):
        return tuple(self.seq(e.elts, fr))

    def e_List(self, e, fr):
        return self.born(self.seq(e.elts, fr))

    def seq(self, elts, fr):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                out.extend(self.elements(self.ev(x.value, fr), True))
            else:
                out.append(self.ev(x, fr))
        return out

    def e_Set(self, e, fr):
        return b_set(self, self.seq(e.elts, fr))

    def e_Dict(self, e, fr):
        d = self.born({})
        for k, v in zip(e.keys, e.values):
            if k is None:
                o = self.ev(v, fr)
                if isinstance(o, SymDict):
                    raise Unsupported("** of an unknown dict")
                d.update(o)
            else:
                self.dict_set(d, self.ev(k, fr), self.ev(v, fr))
        return d

    def e_BoolOp(self, e, fr):
        is_and = isinstance(e.op, ast.And)
        v = None
        for x in e.values:
            v = self.ev(x, fr)
            if x is e.values[-1]:
                return v
            if not is_and and isinstance(v, SymInt) and x is e.values[-2] and isinstance(e.values[-1], ast.Constant) \
                    and type(e.values[-1].value) is int:
                return ite(mkbool(v.e != 0), v, e.values[-1].value)
            t = self.truth(v)
            if t != is_and:
                # the value itself is the result; it is now decided
                if isinstance(v, SymBool):
                    return t
                return v
        return v

    def getter(self, f, o):
        out = []
        for k in f.__reduce__()[1]:
            if isinstance(f, operator.itemgetter):
                out.append(self.getitem(o, k))
            else:
                x = o
                for n in k.split("."):
                    x = self.getattr(x, n)
                out.append(x)
        return out[0] if len(out) == 1 else tuple(out)

    def e_BinOp(self, e, fr):
        a = self.ev(e.left, fr)
        return self.binop(e.op, a, self.ev(e.right, fr))

    def e_UnaryOp(self, e, fr):
        v = self.ev(e.operand, fr)
        if isinstance(e.op, ast.Not):
            if isinstance(v, SymBool):
                return lnot(v)
            return not self.truth(v)
        dn = {ast.USub: "__neg__", ast.UAdd: "__pos__", ast.Invert: "__invert__"}[type(e.op)]
        m = repo_method(type(v), dn)
        if m is not None:
            return self.call(m, (v,), {})
        if isinstance(v, SymBool):
            v = sym.toint(v)
        return {ast.USub: operator.neg, ast.UAdd: operator.pos, ast.Invert: operator.invert}[type(e.op)](v)

    def e_Compare(self, e, fr):
        left = self.ev(e.left, fr)
        res = True
        acc = []
        for i, (op, c) in enumerate(zip(e.ops, e.comparators)):
            right = self.ev(c, fr)
            r = self.compare(op, left, right)
            if i == len(e.ops) - 1 and not acc:
                return r
            acc.append(r)
            if i < len(e.ops) - 1:
                if not self.truth(r):
                    return False
                acc.pop()
            left = right
        return acc[-1] if acc else res

    def e_IfExp(self, e, fr):
        return self.ev(e.body if self.truth(self.ev(e.test, fr)) else e.orelse, fr)

    def e_Lambda(self, e, fr):
        return self.make_function(e, fr, "<lambda>")

    def e_Starred(self, e, fr):
        raise Unsupported("starred expression")

    def e_Yield(self, e, fr):
        v = self.ev(e.value, fr) if e.value is not None else None
        if isinstance(fr.yields, Consumer):
            fr.yields.take(v)
            return None
        self.touch(fr.yields)
        fr.yields.append(v)
        return None

    def e_YieldFrom(self, e, fr):
        xs = self.elements(self.ev(e.value, fr))
        if isinstance(fr.yields, Consumer):
            for x in xs:
                fr.yields.take(x)
            return None
        self.touch(fr.yields)
        fr.yields.extend(xs)
        return None

    def e_JoinedStr(self, e, fr):
        out = []
        for x in e.values:
            if isinstance(x, ast.Constant):
                out.append(x.value)
                continue
            v = self.ev(x.value, fr)
            spec = ""
            if x.format_spec is not None:
                spec = self.ev(x.format_spec, fr)
            if x.conversion in (-1, 115):
                out.append(self.format_spec(v, spec, x.conversion))
            else:
                if self.deep_sym(v):
                    raise Unsupported("f-string conversion of a symbolic value")
                out.append(format({114: repr, 97: ascii}[x.conversion](v), spec))
        return mkstr(out)

    def str_format(self, s, args, kw):
        import string
        out, auto = [], 0
        for lit, field, spec, conv in string.Formatter().parse(s):
            out.append(lit)
            if field is None:
                continue
            if "{" in (spec or "") or conv not in (None, "s"):
                raise Unsupported("str.format field " + field)
            first = re.match(r"[^.\[]*", field).group()
            if field != first:
                raise Unsupported("str.format field " + field)
            if first == "":
                v, auto = args[auto], auto + 1
            else:
                v = args[int(first)] if first.isdigit() else kw[first]
            out.append(self.format_spec(v, spec or "", 115 if conv == "s" else -1))
        return mkstr(out)

    def format_spec(self, v, spec, conv=-1):
        if conv == 115:
            v = self.to_str(v)
        if isinstance(spec, SymStr):
            raise Unsupported("symbolic format spec")
        if isinstance(v, SymInt):
            if spec in ("", "d"):
                return SymStr([Dec(v)])
            if spec and spec[-1] in "xX":
                if spec[0] == "#":
                    if spec == "#04x":
                        return SymStr(["0x", HexP(v, "%02x")])
                    raise Unsupported("format spec " + spec)
                return SymStr([HexP(v, "%" + spec)])
            raise Unsupported("format spec " + spec)
        if is_repo_class(type(v)):
            if repo_method(type(v), "__format__") is not None:
                return self.call_method(v, "__format__", (spec,))
            if spec:
                raise TypeError("unsupported format string passed to %s.__format__" % type(v).__name__)
            return self.to_str(v)
        if isinstance(v, SymStr):
            m = re.fullmatch(r"(?:(.)?([<>]))?(\d+)?s?", spec)
            if m is None or (m.group(3) or "").startswith("0"):
                raise Unsupported("padded symbolic text")
            if not m.group(3):
                return v
            w = _width(v)
            if w is None:
                raise Unsupported("padding of text of unknown width")
            fill = (m.group(1) or " ") * max(0, int(m.group(3)) - w)
            return mkstr([fill, v] if m.group(2) == ">" else [v, fill])
        if self.deep_sym(v):
            raise Unsupported("format of a symbolic value")
        return format(v, spec)

    def e_FormattedValue(self, e, fr):
        return self.e_JoinedStr(ast.JoinedStr([e]), fr)

    # -- comprehensions
    def comp(self, gens, fr, emit, fork=False):
        """Run a comprehension; emit(frame) is called for every element (fork: decide every condition)."""
        sub = Frame(fr.globals, fr, fr.cls, fr.name, None)
        sub.yields = fr.yields

        def level(k):
            if k == len(gens):
                return emit(sub)
            g = gens[k]
            src = self.ev(g.iter, sub if k else fr)
            out = []
            old = list(src) if isinstance(src, list) else None
            for x in self.elements(src):
                if old is not None and (len(old) != len(src) or any(a is not b for a, b in zip(old, src))):
                    raise Unsupported("list changed while it is iterated over")
                if isinstance(x, Block):
                    out.append(self.comp_block(x, g, gens[k + 1:], sub, lambda: level(k + 1)))
                    continue
                guard = []
                if isinstance(x, Maybe):
                    guard.append(x.cond)
                    x = x.value
                self.assign(g.target, x, sub)
                ok = True
                for c in g.ifs:
                    v = self.ev(c, sub)
                    if isinstance(v, SymInt):
                        v = mkbool(v.e != 0)
                    if isinstance(v, SymBool):
                        if self.path.valid(v):
                            continue
                        if self.path.valid(lnot(v)):
                            ok = False
                            break
                        if (isinstance(x, (int, str)) or is_repo_class(type(x))) and not fork:
                            guard.append(v)
                        elif not self.truth(v):
                            ok = False
                            break
                    elif not self.truth(v):
                        ok = False
                        break
                if not ok:
                    continue
                if not guard:
                    out.extend(level(k + 1))
                    continue
                if fork:
                    if self.truth(land(*guard)):
                        out.extend(level(k + 1))
                    continue
                stamp = self.stamp
                try:
                    r = level(k + 1)
                except (NotLazy, Consumed):
                    raise
                except Exception:       # noqa: BLE001 - only where the element is taken
                    if self.stamp != stamp:
                        raise Unsupported("comprehension with side effects")
                    if self.truth(land(*guard)):
                        out.extend(level(k + 1))
                    continue
                if self.stamp != stamp:
                    raise Unsupported("comprehension with side effects")
                if guard:
                    r = [Maybe(land(*(guard + ([y.cond] if isinstance(y, Maybe) else []))),
                               y.value if isinstance(y, Maybe) else y) for y in r]
                out.extend(r)
            return out
        return level(0)

    def comp_block(self, blk, g, rest, sub, inner):
        def run(elem):
            self.assign(g.target, elem, sub)
            for c in g.ifs:
                if not self.truth(self.ev(c, sub)):
                    return []
            return inner()
        effects = self.generic(blk, run)
        for e in effects:
            if e[3]:
                raise Unsupported("comprehension with side effects")
        if any(e[4] is not None for e in effects):
            self.apply_effects(blk, [e for e in effects])
            effects = [e for e in effects if e[4] is None]
        results = [(l, el, pc, list(val or [])) for l, el, pc, eff, ra, val, i in effects]
        if all(len(o) == 1 and o[0] is el for l, el, pc, o in results):
            return blk
        if results and all(len(o) == 1 for l, el, pc, o in results):
            outer = dict(sub.vars)

            def again(it, i):
                saved = dict(sub.vars)
                sub.vars.update(outer)
                try:
                    r = run(blk.get(it, i))
                finally:
                    sub.vars.clear()
                    sub.vars.update(saved)
                return r[0]
            d = Derived(blk, results, blk.n, self.later(effects, again))
            d.entries = [(e[6], e[2], e[5][0]) for e in effects]
            d.stamp = self.stamp
            return d
        return Derived(blk, results)

    def e_ListComp(self, e, fr):
        return self.born(self.comp(e.generators, fr, lambda f: [self.ev(e.elt, f)]))

    def lazily(self, f):
        mark = self.heap_mark()
        try:
            out = f()
        except Exception:
            self.heap_join(self.path.journal.pop())
            raise
        j = self.path.journal[-1]
        effects = False
        try:
            self.heap_unchanged(mark, out)
        except Unsupported:
            effects = True
        self.heap_join(j)
        return EagerIter(out, self, lazy=True, effects=effects)

    def e_GeneratorExp(self, e, fr):
        mark = self.heap_mark()
        try:
            out = self.e_ListComp(e, fr)
        except (NotLazy, Consumed):
            self.heap_join(self.path.journal.pop())
            raise
        except Exception as x:          # noqa: BLE001 - raised when (and if) it gets there
            j = self.path.journal.pop()
            self.heap_join(j)
            born = {id(o) for o in self.births[mark:]}
            r = EagerIter([], self, lazy=True, effects=any(k not in born for k in j))
            r.error, r.redo = x, (e, fr)
            return r
        j = self.path.journal[-1]
        effects = False
        try:
            self.heap_unchanged(mark, out)
        except Unsupported:
            effects = True
        self.heap_join(j)
        return EagerIter(out, self, lazy=True, effects=effects)

    def one_by_one(self, g, stop, out):
        """The elements of a generator expression that fails somewhere, as far as they are asked for."""
        if g.effects or g.redo is None:
            raise Unsupported("generator with side effects")
        e, fr = g.redo
        g.redo = None

        class Stop(Exception):
            pass

        def elt(f):
            v = self.ev(e.elt, f)
            if self.path.journal and len(self.path.journal) != level:
                raise Unsupported("generator over an unbounded list")
            if stop(v):
                out.append(v)
                raise Stop
            return [v]
        level = len(self.path.journal)
        try:
            self.comp(e.generators, fr, elt, fork=True)
        except Stop:
            return True
        return False

    def e_SetComp(self, e, fr):
        return b_set(self, self.e_ListComp(e, fr))

    def e_DictComp(self, e, fr):
        d = {}
        for k, v in self.comp(e.generators, fr, lambda f: [(self.ev(e.key, f), self.ev(e.value, f))]):
            self.dict_set(d, k, v)
        return d

    def e_Call(self, e, fr):
        if isinstance(e.func, ast.Name) and e.func.id == "super" and "super" not in fr.vars:
            return self.super_(e, fr)
        f = self.ev(e.func, fr)
        args = self.seq(e.args, fr)
        kwargs = {}
        for k in e.keywords:
            if k.arg is None:
                kwargs.update(self.ev(k.value, fr))
            else:
                kwargs[k.arg] = self.ev(k.value, fr)
        if f is builtins.locals or f is builtins.globals or f is builtins.eval or f is builtins.exec:
            raise Unsupported("call of " + f.__name__)
        return self.call(f, tuple(args), kwargs)

    def super_(self, e, fr):
        if e.args:
            c, o = [self.ev(a, fr) for a in e.args]
        else:
            f = fr
            while f is not None and f.first is None:
                f = f.parent
            o = f.first
            t = o if isinstance(o, type) else type(o)
            c = None
            for k in t.__mro__:
                if k.__name__ == fr.cls and is_repo_class(k):
                    c = k
            if c is None:
                raise Unsupported("super()")
        return super(c, o)


def _walk_scope(n):
    yield n
    if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.ListComp, ast.SetComp, ast.DictComp,
                      ast.GeneratorExp, ast.AsyncFunctionDef)):
        return
    for c in ast.iter_child_nodes(n):
        yield from _walk_scope(c)


@functools.lru_cache(maxsize=None)
def _is_generator(node):
    for st in node.body:
        for n in _walk_scope(st):
            if isinstance(n, (ast.Yield, ast.YieldFrom)):
                return True
    return False


def simple_value(v):
    return isinstance(v, (int, SymInt, SymBool)) or is_repo_class(type(v)) and set(getattr(v, "__dict__", ())) <= {"name", "value", "kinds"}


def subst_value(it, v, pairs, collect):
    if isinstance(v, (SymInt, SymBool)):
        collect(v.e)
        e = z3.substitute(v.e, *pairs)
        return mkint(e) if isinstance(v, SymInt) else mkbool(e)
    if v is None or isinstance(v, (int, str)):
        return v
    if is_repo_class(type(v)) and type(v).__name__ in ("Usage", "NamedConstant") and set(v.__dict__) <= {"name", "value", "kinds"}:
        if not it.deep_sym(v):
            return v
        c = it.born(object.__new__(type(v)))
        c.__dict__.update(v.__dict__)
        c.value = subst_value(it, v.value, pairs, collect)
        if isinstance(v.name, SymStr):
            ps = []
            for q in v.name.p:
                if isinstance(q, (str, Dec, HexP)):
                    ps.append(q if isinstance(q, str) else Dec(subst_value(it, q.v, pairs, collect)) if isinstance(q, Dec)
                              else HexP(subst_value(it, q.v, pairs, collect), q.spec))
                    continue
                if not isinstance(q, Opaque):
                    raise Unsupported("text of an element")
                m = q.meaning
                if m is not None:
                    m = tuple(subst_value(it, x, pairs, collect) for x in m)
                ps.append(Opaque(q.label, parts=q.parts, nonempty=q.nonempty, meaning=m))
            c.name = SymStr(ps)
        if hasattr(v, "kinds") and not isinstance(v.kinds, set):
            c.kinds = type(v.kinds)(subst_value(it, v.kinds.k, pairs, collect))
        return c
    raise Unsupported("element of another kind")


class FloorLog:
    """math.log(m, 2) / math.log2(m) for a symbolic m > 0; only int() of it is known."""

    def __init__(self, m):
        self.m = m

    def floor(self):
        return sym.floor_log2_plus1(self.m) - 1


class ModelMethod:
    """A method of a modelled (or mutable builtin) object."""

    def __init__(self, it, obj, name):
        self.it, self.obj, self.name = it, obj, name

    def __call__(self, *args, **kw):
        it, o, n = self.it, self.obj, self.name
        if isinstance(o, SymInt) or isinstance(o, SymBool):
            if n in ("bit_length", "to_bytes", "conjugate"):
                return getattr(sym.toint(o), n)(*args, **kw)
            raise Unsupported("int method " + n)
        if isinstance(o, SymStr):
            return it.str_method(o, n, args, kw)
        if isinstance(o, SymBytes):
            if n == "hex" and o.rest is None:
                sep = args[0] if args else kw.get("sep", "")
                out = []
                for i, b in enumerate(o.b):
                    out += ([sep] if i and sep else []) + [SymStr([HexP(b, "%02x")]) if isinstance(b, SymInt) else "%02x" % b]
                return mkstr(out)
            if n == "startswith" or True:
                raise Unsupported("bytes method " + n)
        if isinstance(o, EagerIter):
            if n == "__next__":
                return next(o)
            raise Unsupported("iterator method")
        if isinstance(o, SymDict) or isinstance(o, dict):
            return self.dict_(*args, **kw)
        if isinstance(o, list):
            return self.list_(*args, **kw)
        if isinstance(o, SymSet):
            return self.symset_(*args, **kw)
        if isinstance(o, set):
            return self.set_(*args, **kw)
        raise Unsupported("method %s of %s" % (n, type(o).__name__))

    def dict_(self, *args, **kw):
        it, o, n = self.it, self.obj, self.name
        if n == "get":
            ok, v = it.dict_get(o, args[0])
            if it.truth(ok):
                return v
            return args[1] if len(args) > 1 else None
        if n == "setdefault":
            ok, v = it.dict_get(o, args[0])
            if it.truth(ok):
                return v
            v = args[1] if len(args) > 1 else None
            it.dict_set(o, args[0], v)
            return v
        if n == "copy":
            if isinstance(o, SymDict):
                return o.copy()
            if id(o) in it.path.overlay:
                raise Unsupported("copy of a dict with symbolic keys")
            return dict(o)
        if n == "pop":
            ok, v = it.dict_get(o, args[0])
            if it.truth(ok):
                it.delitem(o, args[0])
                return v
            if len(args) > 1:
                return args[1]
            raise KeyError("key")
        if isinstance(o, SymDict):
            if n == "update" and len(args) == 1 and isinstance(args[0], dict):
                for k, v in args[0].items():
                    o.store(it, k, v)
                return None
            raise Unsupported("dict method " + n)
        if n == "__contains__":
            return it.contains(o, args[0])
        if id(o) in it.path.overlay:
            raise Unsupported("dict method %s with symbolic keys" % n)
        if n == "update":
            if len(args) == 1 and isinstance(args[0], SymDict):
                raise Unsupported("update from an unknown dict")
            it.touch(o)
            for a in args:
                for k, v in (a.items() if isinstance(a, dict) else [it.elements(x) for x in it.elements(a)]):
                    it.dict_set(o, k, v)
            for k, v in kw.items():
                it.dict_set(o, k, v)
            return None
        if n in ("clear", "popitem"):
            it.touch(o)
            return getattr(o, n)()
        if n in ("keys", "values", "items"):
            return view(o, n)
        return getattr(o, n)(*args, **kw)

    def list_(self, *args, **kw):
        it, o, n = self.it, self.obj, self.name
        if isinstance(o, SymList256):
            raise Unsupported("list method " + n)
        if isinstance(o, ByteArr):
            if n == "append":
                x = byte(it, args[0])
                it.touch(o)
                o.append(x)
                return None
            if n == "extend":
                xs = bytes_of(it, args[0])
                it.touch(o)
                o.extend(xs)
                return None
            if n in ("clear",):
                it.touch(o)
                o.clear()
                return None
            if n == "copy":
                return it.born(ByteArr(o))
            if n in ("hex", "startswith", "endswith", "decode", "find"):
                return it.call_method(b_bytes(it, o), n, args, kw)
            raise Unsupported("bytearray method " + n)
        if n == "append":
            if o.__class__ is SinkList and o.closed:
                o.late = True
            it.touch(o)
            o.append(args[0])
            return None
        if n == "extend":
            xs = it.elements(args[0], True)
            it.touch(o)
            o.extend(xs)
            return None
        if n == "copy":
            return list(o)
        if n == "clear":
            it.touch(o)
            o.clear()
            return None
        if n == "pop":
            if not has_block(o):
                it.touch(o)
                i = it.index(args[0]) if args else -1
                return o.pop(it.conc(i))
            i = it.conc(it.index(args[0])) if args else -1
            if i not in (0, -1):
                raise Unsupported("pop inside an unbounded list")
            x = o[i]
            if isinstance(x, Block):
                h = x.ghost.get("pop")
                if h is not None:
                    return h(it, o, i)
                raise Unsupported("pop from an unbounded block")
            it.touch(o)
            return o.pop(i)
        if n == "insert":
            i = it.conc(it.index(args[0]))
            if has_block(o) and i != 0:
                raise Unsupported("insert in an unbounded list")
            it.touch(o)
            o.insert(i, args[1])
            return None
        if has_block(o):
            raise Unsupported("list method %s on an unbounded list" % n)
        if n in ("index", "count", "remove"):
            for i, x in enumerate(o):
                if x is args[0] or it.truth(it.eq(x, args[0])):
                    if n == "index":
                        return i
                    if n == "remove":
                        it.touch(o)
                        del o[i]
                        return None
            if n == "count":
                return sum(1 for x in o if it.truth(it.eq(x, args[0])))
            raise ValueError("not in list")
        if n == "reverse":
            it.touch(o)
            o.reverse()
            return None
        if n == "sort":
            it.touch(o)
            o.sort(*args, **kw)
            return None
        raise Unsupported("list method " + n)

    def set_(self, *args, **kw):
        it, o, n = self.it, self.obj, self.name
        if n in ("add",) and not it.symbolic_key(args[0]):
            it.touch(o)
            o.add(args[0])
            return None
        if it.deep_sym(list(args)):
            if n == "union" or n == "__or__":
                e = list(o)
                for a in args:
                    e += a.elems if isinstance(a, SymSet) else it.elements(a)
                return SymSet(e)
            raise Unsupported("set method %s with symbolic elements" % n)
        if n in ("update", "discard", "remove", "clear", "pop"):
            it.touch(o)
        return getattr(o, n)(*args, **kw)

    def symset_(self, *args, **kw):
        it, o, n = self.it, self.obj, self.name
        if o.has is not None or any(isinstance(a, SymSet) and a.has is not None for a in args):
            raise Unsupported("operation on an unknown set")
        if n in ("union", "__or__", "__ior__"):
            e = list(o.elems)
            for a in args:
                if isinstance(a, Block):        # a set for each element of a list
                    if not isinstance(a, Derived) or any(not isinstance(x, SymSet) or x.has is not None for r in a.results for x in r[3]):
                        raise Unsupported("union of unknown sets")
                    e.append(Derived(a.src, [(l, el, pc, [y for x in out for y in x.elems]) for l, el, pc, out in a.results]))
                    continue
                e += [x for x in (a.elems if isinstance(a, SymSet) else it.elements(a)) if not any(x is y for y in e)]
            return SymSet(e)
        if n == "update":
            it.touch(o)
            for a in args:
                o.elems = o.elems + [x for x in (a.elems if isinstance(a, SymSet) else it.elements(a)) if not any(x is y for y in o.elems)]
            return None
        if n == "add":
            it.touch(o)
            o.elems.append(args[0])
            return None
        if n == "copy":
            return SymSet(o.elems)
        if n == "pop":
            d = o.distinct(it)
            if len(d) == 1:
                it.touch(o)
                o.elems = []
                return d[0]
        raise Unsupported("set method " + n)


class SinkList(list):
    closed = 0
    late = False


def _str_method(self, s, n, args, kw):
    if isinstance(s, SymStr) and len(s.p) == 1 and hasattr(s.p[0], "vf_text_method"):
        r = s.p[0].vf_text_method(self, n, args, kw)
        if r is not NotImplemented:
            return r
    if isinstance(s, str) and not self.deep_sym(list(args)) and not self.deep_sym(dict(kw)):
        if n == "join":
            xs = self.elements(args[0], True)
            return s.join(xs)
        return getattr(s, n)(*args, **kw)
    if n == "join":
        xs = self.elements(args[0], True)
        if any(isinstance(x, Maybe) for x in xs):
            # filtered names: unknown text, empty iff none of them is there
            conds = [x.cond if isinstance(x, Maybe) else True for x in xs]
            key = tuple((str(z3.simplify(zb(x.cond))), str(x.value)) if isinstance(x, Maybe) else ("", str(x)) for x in xs)
            o = Opaque("join", None, lor(*conds), ("join", s, [(x.cond, x.value) if isinstance(x, Maybe) else (True, x) for x in xs]))
            return SymStr([o])
        out = []
        for i, x in enumerate(xs):
            if isinstance(x, Block):
                out.append(Opaque("joined block", None, None, ("joinblock", s, x)))
                continue
            if not isinstance(x, (str, SymStr)):
                raise TypeError("sequence item %d: expected str instance" % i)
            if i:
                out.append(s)
            out.append(x)
        return mkstr(out)
    if n == "split" and isinstance(s, SymStr):
        if len(s.p) == 1 and isinstance(s.p[0], Opaque) and s.p[0].parts is not None and tuple(args) == (".", 1):
            return list(s.p[0].parts)
        if len(s.p) == 1 and isinstance(s.p[0], HexP) and args and args[0] == ".":
            return [s]
        if all(isinstance(x, (Dec, HexP)) or isinstance(x, str) for x in s.p) and len(args) == 2 and args[1] == 1 \
                and isinstance(args[0], str) and len(args[0]) == 1 and args[0] not in "0123456789abcdefx-":
            for i, x in enumerate(s.p):
                if isinstance(x, str) and args[0] in x:
                    a, b = x.split(args[0], 1)
                    return [mkstr(list(s.p[:i]) + [a]), mkstr([b] + list(s.p[i + 1:]))]
            return [s]
        raise Unsupported("split of symbolic text")
    if n == "partition" and isinstance(s, SymStr) and tuple(args) == (".",):
        r = _str_method(self, s, "split", (".", 1), {})
        return (r[0], ".", r[1]) if len(r) == 2 else (r[0], "", "")
    if n == "ljust" and isinstance(s, SymStr):
        w = _width(s)
        if w is None:
            raise Unsupported("padding of text of unknown width")
        fill = args[1] if len(args) > 1 else " "
        return mkstr([s, fill * max(0, args[0] - w)])
    if n in ("lower", "upper") and isinstance(s, SymStr) and all(
            isinstance(x, str) or (isinstance(x, HexP) and x.spec == ("%02x" if n == "lower" else "%02X")) for x in s.p):
        return mkstr([getattr(x, n)() if isinstance(x, str) else x for x in s.p])
    if n in ("strip", "lstrip", "rstrip") and isinstance(s, SymStr) and all(type(a) is str or a is None for a in args):
        cs = args[0] if args and args[0] is not None else None
        ps = list(s.p)
        for side, at, other in (("lstrip", 0, "rstrip"), ("rstrip", -1, "lstrip")):
            if n == other:
                continue
            while ps:
                x = ps[at]
                if isinstance(x, str):
                    y = getattr(x, side)(cs)
                    if y:
                        ps[at] = y
                        break
                    ps.pop(at)
                    continue
                # digits are stripped of nothing but digits
                if isinstance(x, (Dec, HexP)) and (cs is None or not set(cs) & set("0123456789abcdefABCDEFxX-+")):
                    break
                raise Unsupported("str method %s" % n)
        return mkstr(ps)
    if n == "format" and isinstance(s, str):
        return self.str_format(s, args, kw)
    if n == "format":
        raise Unsupported("str.format on symbolic text")
    raise Unsupported("str method %s" % n)


Interp.str_method = _str_method


def _width(s):
    w = 0
    for x in s.p:
        if isinstance(x, str):
            w += len(x)
        elif isinstance(x, HexP) and x.spec in ("%02x", "%02X") and sym.cur().valid(z3.And(zi(x.v) >= 0, zi(x.v) < 256)):
            w += 2
        else:
            return None
    return w


# ---------------------------------------------------------------- builtin functions
def b_int(it, v=0, *base, **kw):
    if kw:
        base = (kw["base"],)
    return it.to_int(v, *base)


def b_bool(it, v=False):
    if isinstance(v, SymInt):
        return mkbool(v.e != 0)
    if isinstance(v, SymBool):
        return v
    return it.truth(v)


def b_str(it, *a):
    if not a:
        return ""
    if len(a) > 1:
        return str(*a)
    return it.to_str(a[0])


def b_isinstance(it, v, t):
    ts = t if isinstance(t, tuple) else (t,)
    flat = []
    for x in ts:
        flat.extend(x if isinstance(x, tuple) else (x,))
    ts = tuple(flat)
    if isinstance(v, SymInt):
        return any(x in (int, object) for x in ts)
    if isinstance(v, SymBool):
        return any(x in (int, bool, object) for x in ts)
    if isinstance(v, SymStr):
        return any(x in (str, object) for x in ts)
    if isinstance(v, SymBytes):
        return any(x in (bytes, object) for x in ts)
    if isinstance(v, ByteArr):
        return any(x in (bytearray, object) for x in ts)
    if isinstance(v, SymDict):
        return any(x in (dict, object) for x in ts)
    if isinstance(v, SymSet):
        return any(x in (set, object) for x in ts)
    if isinstance(v, (Block, SymRange, EagerIter, Maybe)):
        raise Unsupported("isinstance of %s" % type(v).__name__)
    import numbers
    return isinstance(v, ts)


def byte(it, x):
    """x as an element of a bytearray"""
    if isinstance(x, SymBool):
        x = sym.toint(x)
    if not isinstance(x, (int, SymInt)):
        m = repo_method(type(x), "__index__")
        if m is None:
            raise TypeError("'%s' object cannot be interpreted as an integer" % type(x).__name__)
        x = it.call(m, (x,), {})
    if isinstance(x, SymInt):
        if it.path.fork(z3.Or(x.e < 0, x.e > 255)):
            raise ValueError("byte must be in range(0, 256)")
    elif not 0 <= x <= 255:
        raise ValueError("byte must be in range(0, 256)")
    return x


def bytes_of(it, v):
    """the elements of something that is added to a bytearray"""
    if isinstance(v, (str, SymStr)):
        raise TypeError("expected iterable of integers; got: 'str'")
    if isinstance(v, ByteArr):
        return list(v)
    if isinstance(v, SymBytes) and v.rest is not None:
        raise Unsupported("bytearray of unknown length")
    return [x if isinstance(x, Block) else byte(it, x) for x in it.elements(v, True)]


def b_bytearray(it, *a):
    if not a:
        return it.born(ByteArr())
    if isinstance(a[0], (int, SymInt)):
        return it.born(ByteArr(bytes(it.path.concretize(a[0], 16))))
    if isinstance(a[0], str):
        return it.born(ByteArr(bytearray(*a)))
    return it.born(ByteArr(bytes_of(it, a[0])))


def b_bytes(it, *a):
    if not a:
        return b""
    v = a[0]
    if isinstance(v, SymBytes):
        return v
    if isinstance(v, (bytes, bytearray)):
        return bytes(v)
    if isinstance(v, str):
        return bytes(*a)
    if isinstance(v, (int, SymInt)):
        return bytes(it.path.concretize(v, 16))
    m = repo_method(type(v), "__bytes__")
    if m is not None:
        return it.call(m, (v,), {})
    xs = it.elements(v, True)
    if has_block(xs):
        h = getattr(it, "bytes_block", None)
        if h is not None:
            return h(it, xs)
        raise Unsupported("bytes of an unbounded list")
    out = []
    for x in xs:
        if isinstance(x, SymInt):
            if it.path.fork(z3.Or(x.e < 0, x.e > 255)):
                raise ValueError("bytes must be in range(0, 256)")
        elif isinstance(x, (SymBool, int)):
            x = int(x) if isinstance(x, int) else sym.toint(x)
            if isinstance(x, int) and not 0 <= x <= 255:
                raise ValueError("bytes must be in range(0, 256)")
        else:
            m = repo_method(type(x), "__index__")
            if m is None:
                raise TypeError("'%s' object cannot be interpreted as an integer" % type(x).__name__)
            x = it.call(m, (x,), {})
        out.append(x)
    return mkbytes(out)


def b_list(it, *a):
    return it.born(it.elements(a[0], True) if a else [])


def b_tuple(it, *a):
    return tuple(it.elements(a[0], True)) if a else ()


def b_set(it, *a):
    xs = it.elements(a[0], True) if a else []
    if any(issym(x) for x in xs) or has_block(xs):
        if has_block(xs) and not it.symsets:
            raise Unsupported("set of an unbounded list")
        return it.born(SymSet(xs))
    return it.born(SymSet(xs)) if it.symsets else set(xs)


def b_dict(it, *a, **kw):
    if a and isinstance(a[0], SymDict):
        d = a[0].copy()
        for k, v in kw.items():
            raise Unsupported("dict() of an unknown dict with keywords")
        return d
    if a and id(a[0]) in it.path.overlay:
        raise Unsupported("copy of a dict with symbolic keys")
    d = {}
    if a:
        for k, v in (a[0].items() if isinstance(a[0], dict) else [it.elements(x) for x in it.elements(a[0], True)]):
            it.dict_set(d, k, v)
    d.update(kw)
    return d


def b_range(it, *a):
    a = [it.index(x) for x in a]
    if all(isinstance(x, int) for x in a):
        return range(*a)
    if len(a) == 1:
        a = [0, a[0]]
    if len(a) == 3:
        if a[2] != 1:
            raise Unsupported("range with a step")
        a = a[:2]
    return SymRange(*a)


def b_map(it, f, *its):
    if len(its) != 1:
        cols = [it.elements(x) for x in its]
        if any(has_block(c) for c in cols):
            raise Unsupported("map over several unbounded lists")
        return it.lazily(lambda: [it.call(f, t, {}) for t in zip(*cols)])
    return it.lazily(lambda: map_(it, f, its))


def map_(it, f, its):
    out = []
    for x in it.elements(its[0]):
        if isinstance(x, Block):
            def run(elem):
                return [it.call(f, (elem,), {})]
            effects = it.generic(x, run)
            it.apply_effects(x, effects)
            effects = [e for e in effects if e[4] is None]
            results = [(l, el, pc, list(v)) for l, el, pc, eff, ra, v, i in effects]
            out.append(Derived(x, results, x.n, it.later(effects, lambda it2, i, b=x: it2.call(f, (b.get(it2, i),), {}))))
        elif isinstance(x, Maybe):
            raise Unsupported("map over a filtered list")
        else:
            out.append(it.call(f, (x,), {}))
    return out


def b_filter(it, f, xs):
    return it.lazily(lambda: filter_(it, f, xs))


def filter_(it, f, xs):
    out = []
    for x in it.elements(xs):
        if isinstance(x, Block):
            def run(elem):
                return [elem] if it.truth(elem if f is None else it.call(f, (elem,), {})) else []
            effects = it.generic(x, run)
            if any(e[3] or e[4] is not None for e in effects):
                raise Unsupported("filter with side effects over an unbounded list")
            results = [(l, el, pc, list(v)) for l, el, pc, eff, ra, v, i in effects]
            out.append(x if all(len(o) == 1 for _, _, _, o in results) else Derived(x, results))
        elif it.truth(x if f is None else it.call(f, (x,), {})):
            out.append(x)
    return out


def b_zip(it, *its, **kw):
    cols = [it.elements(x) for x in its]
    if any(has_block(c) for c in cols):
        if len(cols) == 2 and len(cols[0]) == 1 and isinstance(cols[0][0], Block) and len(cols[1]) == 1 \
                and isinstance(cols[1][0], Block):
            a, b = cols[0][0], cols[1][0]
            n = ite(mkbool(zi(a.n) < zi(b.n)), a.n, b.n)
            return EagerIter([Block(n, None, lambda it2, i: (a.get(it2, i), b.get(it2, i)), "zip")])
        raise Unsupported("zip of unbounded lists")
    if kw.get("strict"):
        if len({len(c) for c in cols}) > 1:
            raise ValueError("zip() arguments have different lengths")
    return EagerIter(list(zip(*cols)), it, srcs=its)


def b_enumerate(it, xs, start=0):
    out, k = [], start
    for x in it.elements(xs):
        if isinstance(x, Block):
            off = k
            out.append(Block(x.n, None, lambda it2, i, b=x, o=off: (o + i, b.get(it2, i)), "enumerate"))
            k = k + x.n
        elif isinstance(x, Maybe):
            raise Unsupported("enumerate over a filtered list")
        else:
            out.append((k, x))
            k = k + 1
    return EagerIter(out, it, srcs=[xs])


def b_reversed(it, xs):
    src, xs = xs, it.elements(xs)
    if has_block(xs):
        raise Unsupported("reversed of an unbounded list")
    return EagerIter(xs[::-1], it, srcs=[src])


def b_iter(it, xs, *sentinel):
    if sentinel:
        raise Unsupported("iter with a sentinel")
    if isinstance(xs, (EagerIter,)):
        return xs
    return EagerIter(it.elements(xs), it, srcs=[xs])


def b_next(it, i, *d):
    if isinstance(i, EagerIter) and i.error is not None:
        r = []
        if it.one_by_one(i, lambda v: True, r):
            i.error = Unsupported("generator taken apart")
            return r[0]
    if isinstance(i, EagerIter):
        try:
            return next(i)
        except StopIteration:
            if d:
                return d[0]
            raise
    return next(i, *d)


def b_minmax(it, a, kw, less):
    key = kw.get("key")
    xs = it.elements(a[0], True) if len(a) == 1 else list(a)
    if has_block(xs):
        raise Unsupported("min/max of an unbounded list")
    if not xs:
        if "default" in kw:
            return kw["default"]
        raise ValueError("empty sequence")
    best = xs[0]
    kb = it.call(key, (best,), {}) if key else best
    for x in xs[1:]:
        kx = it.call(key, (x,), {}) if key else x
        if isinstance(kx, (int, SymInt)) and isinstance(kb, (int, SymInt)) and key is None:
            c = mkbool(zi(kx) < zi(kb)) if less else mkbool(zi(kx) > zi(kb))
            best = kb = ite(c, kx, kb)
            continue
        if it.truth(it.compare(ast.Lt() if less else ast.Gt(), kx, kb)):
            best, kb = x, kx
    return best


def b_sum(it, xs, start=0):
    xs = it.elements(xs, True)
    r = start
    for x in xs:
        if isinstance(x, Block):
            raise Unsupported("sum of an unbounded list")
        if isinstance(x, Maybe):
            r = r + ite(x.cond, x.value, 0)
        else:
            r = it.binop(ast.Add(), r, x)
    return r


def b_anyall(it, xs, isany):
    if isinstance(xs, EagerIter) and xs.error is not None:
        r = []
        if it.one_by_one(xs, lambda v: it.truth(b_bool(it, v)) == isany, r):
            return isany
        return not isany
    xs = it.elements(xs)
    acc = []
    for x in xs:
        if isinstance(x, Maybe):
            c = x.cond
            v = x.value
            v = b_bool(it, v)
            acc.append(land(c, v) if isany else lor(lnot(c), v))
            continue
        if isinstance(x, Block):
            return anyall_block(it, xs, isany)
        acc.append(b_bool(it, x))
    return lor(*acc) if isany else land(*acc)


def anyall_block(it, xs, isany):
    """any/all over an unbounded derived block of conditions: one of the elements decides (a witness), or none does."""
    for x in xs:
        if not isinstance(x, Block):
            v = x.value if isinstance(x, Maybe) else x
            if isinstance(x, Maybe) and not it.truth(x.cond):
                continue
            if it.truth(b_bool(it, v)) == isany:
                return isany
            continue
        entries = getattr(x, "entries", None)
        if entries is None or x.n is None:
            raise Unsupported("any/all over an unbounded list")
        conds = []
        for i, pc, v in entries:
            c = b_bool(it, v)
            conds.append((i, z3.And(pc, zb(c if isany else lnot(c)))))
        k = it.path.choose(1 + len(conds))
        if k:
            i, c = conds[k - 1]
            it.path.assume(z3.And(i.e >= 0, i.e < zi(x.n), c))
            if it.path.check() == z3.unsat:
                raise PathEnd
            return isany
        for i, c in conds:
            it.path.assume(z3.ForAll([i.e], z3.Implies(z3.And(i.e >= 0, i.e < zi(x.n)), z3.Not(c))))
    return not isany


def b_sorted(it, xs, **kw):
    xs = it.elements(xs, True)
    if has_block(xs):
        if any(isinstance(x, Block) for x in xs) or set(kw) - {"key"}:
            raise Unsupported("sorted of an unbounded list")
        key = kw.get("key") or (lambda x: x)
        ks = [key(x.value if isinstance(x, Maybe) else x) for x in xs]
        if any(type(k) not in (int, str) for k in ks):
            raise Unsupported("sorted of an unbounded list")
        return [x for k, n, x in sorted(zip(ks, range(len(xs)), xs), key=lambda t: t[:2])]
    return sorted(xs, **kw)


def b_getattr(it, o, n, *d):
    if isinstance(n, SymStr):
        raise Unsupported("getattr with symbolic name")
    return it.getattr(o, n, *d)


def b_hasattr(it, o, n):
    try:
        it.getattr(o, n)
        return True
    except AttributeError:
        return False


def b_setattr(it, o, n, v):
    it.setattr(o, n, v)


def b_hash(it, v):
    m = repo_method(type(v), "__hash__")
    if m is not None:
        return it.call(m, (v,), {})
    if isinstance(v, SymInt):
        return HashOf(v)
    return hash(v)


class HashOf:
    def __init__(self, v):
        self.v = v


def b_log(it, m, *base):
    m = it.to_int(m) if not isinstance(m, (int, float, SymInt)) else m
    if not isinstance(m, SymInt):
        return math.log(m, *base)
    if base != (2,):
        raise Unsupported("logarithm of a symbolic int")
    if it.path.fork(m.e <= 0):
        raise ValueError("math domain error")
    return FloorLog(m)


def b_log2(it, m):
    return b_log(it, m, 2) if isinstance(m, SymInt) else math.log2(m)


def b_floor(it, v):
    return v.floor() if isinstance(v, FloorLog) else (v if isinstance(v, SymInt) else math.floor(v))


_FMT = {"b": (1, 1), "B": (1, 0), "h": (2, 1), "H": (2, 0), "l": (4, 1), "L": (4, 0), "i": (4, 1), "I": (4, 0),
        "q": (8, 1), "Q": (8, 0)}


def _fmt(fmt):
    if not isinstance(fmt, str):
        raise Unsupported("symbolic struct format")
    m = re.fullmatch(r"<([bBhHlLiIqQ])", fmt)
    if not m:
        raise Unsupported("struct format %r" % fmt)
    return _FMT[m.group(1)]


def b_pack(it, fmt, *vals):
    if not it.deep_sym(list(vals)):
        return struct.pack(fmt, *vals)
    n, signed = _fmt(fmt)
    if len(vals) != 1 or not isinstance(vals[0], SymInt):
        raise Unsupported("struct.pack")
    v = vals[0]
    try:
        return sym.int_to_bytes(v, n, "little", bool(signed))
    except OverflowError:
        raise struct.error("argument out of range")


def b_unpack(it, fmt, data, *off):
    if off:
        raise Unsupported("struct.unpack_from")
    if not isinstance(data, SymBytes):
        return struct.unpack(fmt, data)
    n, signed = _fmt(fmt)
    if data.rest is not None:
        raise Unsupported("unpack of unbounded bytes")
    if len(data.b) != n:
        raise struct.error("unpack requires a buffer of %d bytes" % n)
    return (from_bytes(data.b, "little", signed),)


def from_bytes(bs, order, signed):
    bs = list(bs) if order == "little" else list(bs)[::-1]
    e = z3.Sum([zi(b) * (1 << 8 * k) for k, b in enumerate(bs)]) if bs else z3.IntVal(0)
    if signed and bs:
        e = z3.If(zi(bs[-1]) >= 128, e - (1 << 8 * len(bs)), e)
    return mkint(e)


def b_from_bytes(it, data, byteorder="big", *, signed=False):
    if isinstance(data, SymBytes) and data.rest is None:
        return from_bytes(data.b, byteorder, signed)
    if isinstance(data, (list, tuple)) and it.deep_sym(data):
        return from_bytes(data, byteorder, signed)
    return int.from_bytes(data, byteorder, signed=signed)


def b_abs(it, v):
    return abs(v)


def b_divmod(it, a, b):
    return (a // b, a % b)


def b_ord(it, *a):
    raise Unsupported("ord/chr")


def b_print(it, *a, **kw):
    """Diagnostics: of no effect but on what a tool writes (C14, which reads this log)."""
    f = kw.get("file")
    if f is None or f is sys.stdout:
        it.path.__dict__.setdefault("printed", []).append(1)
    elif f is not sys.stderr:
        if set(kw) - {"file", "sep", "end", "flush"} or kw.get("flush"):
            raise Unsupported("print with other options")
        sep, end = (d if kw.get(k) is None else kw[k] for k, d in (("sep", " "), ("end", "\n")))
        out = []
        for x in a:
            out += ([sep] if out else []) + [b_str(it, x)]
        it.call_method(f, "write", (mkstr(out + [end]),))
    return None


def b_sub(it, pat, repl, string, count=0, flags=0):
    if isinstance(pat, re.Pattern):
        pat, flags = pat.pattern, pat.flags & ~re.UNICODE
    if isinstance(string, str):
        return re.sub(pat, repl, string, count=count, flags=flags)
    h = getattr(it, "re_sub", None)
    if h is not None:
        return h(it, pat, repl, string, count, flags)
    raise Unsupported("re.sub on symbolic text")


def b_findall(it, pat, string, flags=0):
    if isinstance(pat, re.Pattern):
        pat, flags = pat.pattern, pat.flags & ~re.UNICODE
    if isinstance(string, str):
        return re.findall(pat, string, flags)
    h = getattr(it, "re_findall", None)
    if h is not None:
        return h(it, pat, string, flags)
    raise Unsupported("re.findall on symbolic text")


def b_type(it, *a):
    if len(a) != 1:
        raise Unsupported("type() creating a class")
    v = a[0]
    if isinstance(v, SymInt):
        return int
    if isinstance(v, SymBool):
        return bool
    if isinstance(v, SymStr):
        return str
    if isinstance(v, SymBytes):
        return bytes
    if issym(v) or isinstance(v, (Block, Maybe)):
        raise Unsupported("type of a symbolic value")
    return type(v)


def b_warn(it, *a, **kw):
    return None


def b_len(it, v):
    return it.length(v)


import warnings as _warnings   # noqa: E402

def _operators():
    def bin_(op, inplace):
        return lambda it, a, b: it.binop(op(), a, b, inplace)

    def cmp_(op):
        return lambda it, a, b: it.compare(op(), a, b)
    r = {operator.getitem: lambda it, a, k: it.getitem(a, k), operator.contains: lambda it, a, x: b_bool(it, it.contains(a, x)),
         operator.truth: lambda it, a: b_bool(it, a), operator.not_: lambda it, a: not it.truth(a), operator.index: lambda it, a: it.index(a)}
    for op, (_, _, f) in _BINOPS.items():
        r[f] = bin_(op, False)
        r[getattr(operator, "i" + f.__name__.rstrip("_"))] = bin_(op, True)
    for op, (_, _, f) in _CMPOPS.items():
        r[f] = cmp_(op)
    for op, f in ((ast.Eq, operator.eq), (ast.NotEq, operator.ne), (ast.Is, operator.is_), (ast.IsNot, operator.is_not)):
        r[f] = cmp_(op)
    for f in (operator.neg, operator.pos, operator.invert, operator.abs):
        r[f] = (lambda g: lambda it, a: g(a))(f)
    return r


_BUILTINS = {
    **_operators(),
    int: b_int, bool: b_bool, str: b_str, isinstance: b_isinstance, bytes: b_bytes, bytearray: b_bytearray, list: b_list, tuple: b_tuple,
    set: b_set, dict: b_dict, range: b_range, map: b_map, filter: b_filter, zip: b_zip, enumerate: b_enumerate,
    reversed: b_reversed, iter: b_iter, next: b_next, len: b_len, sum: b_sum, sorted: b_sorted, hex: lambda it, v: it.to_hex(v),
    min: lambda it, *a, **k: b_minmax(it, a, k, True), max: lambda it, *a, **k: b_minmax(it, a, k, False),
    any: lambda it, x: b_anyall(it, x, True), all: lambda it, x: b_anyall(it, x, False),
    getattr: b_getattr, hasattr: b_hasattr, setattr: b_setattr, hash: b_hash, abs: b_abs, divmod: b_divmod,
    math.log: b_log, math.log2: b_log2, math.floor: b_floor, struct.pack: b_pack, struct.unpack: b_unpack,
    int.from_bytes: b_from_bytes, print: b_print, re.sub: b_sub, re.findall: b_findall, type: b_type,
    _warnings.warn: b_warn, callable: lambda it, f: callable(f), id: lambda it, o: id(o),
    issubclass: lambda it, a, b: issubclass(a, b), format: lambda it, v, s="": it.format_spec(v, s),
}
