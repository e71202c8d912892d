"""Symbolic values and the path explorer.

Integers are mathematical (as Python's are).  A SymBool used as a condition asks
the current path to fork; every other implicit conversion of a symbolic value
(hash, index, native str) is refused with Unsupported, so nothing symbolic can
leak silently into code the engine does not model.
"""
import time
import z3


class Unsupported(BaseException):
    """The engine cannot decide this: outside its subset.  Never a verdict."""


class PathEnd(BaseException):
    """This path is over (assumption false, or cut by a loop rule)."""


CUR = None          # the current Path


def cur():
    if CUR is None:
        raise Unsupported("symbolic value used outside a path")
    return CUR


class SymBool:
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    def __bool__(self):
        return cur().fork(self.e)

    def __invert__(self):
        raise Unsupported("~ on a symbolic bool")

    def __eq__(self, o):
        return mkbool(self.e == zb(o)) if isbool(o) else ((toint(self) == o) if isint(o) else False)

    def __ne__(self, o):
        r = self.__eq__(o)
        return lnot(r)

    def __hash__(self):
        raise Unsupported("hash of a symbolic bool")

    def _n(self, *a):
        raise Unsupported("native conversion of a symbolic bool")
    __int__ = __index__ = __float__ = __str__ = __repr__ = __format__ = _n

    def __add__(self, o): return toint(self) + o
    __radd__ = __add__
    def __and__(self, o):
        return land(self, o) if isbool(o) else toint(self) & o
    __rand__ = __and__
    def __or__(self, o):
        return lor(self, o) if isbool(o) else toint(self) | o
    __ror__ = __or__


def isint(v):
    return isinstance(v, (int, SymInt, SymBool))


def isbool(v):
    return isinstance(v, (bool, SymBool))


def issym(v):
    return isinstance(v, (SymInt, SymBool, SymStr, SymBytes))


def zb(v):
    if isinstance(v, SymBool):
        return v.e
    if isinstance(v, bool):
        return z3.BoolVal(v)
    if z3.is_bool(v):
        return v
    raise Unsupported("not a bool: %r" % (type(v),))


def zi(v):
    if isinstance(v, SymInt):
        return v.e
    if isinstance(v, SymBool):
        return z3.If(v.e, z3.IntVal(1), z3.IntVal(0))
    if isinstance(v, int):
        return z3.IntVal(int(v))
    if z3.is_expr(v):
        return v
    raise Unsupported("not an int: %r" % (type(v),))


def mkbool(e):
    if isinstance(e, bool):
        return e
    e = z3.simplify(e)
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return SymBool(e)


def mkint(e):
    if isinstance(e, int):
        return e
    e = z3.simplify(e)
    if z3.is_int_value(e):
        return e.as_long()
    return SymInt(e)


def toint(v):
    if isinstance(v, (SymBool, bool)):
        return mkint(zi(v))
    return v


def land(*vs):
    vs = [v for v in vs if v is not True]
    if any(v is False for v in vs):
        return False
    if not vs:
        return True
    return mkbool(z3.And([zb(v) for v in vs]))


def lor(*vs):
    vs = [v for v in vs if v is not False]
    if any(v is True for v in vs):
        return True
    if not vs:
        return False
    return mkbool(z3.Or([zb(v) for v in vs]))


def lnot(v):
    if isinstance(v, bool):
        return not v
    return mkbool(z3.Not(zb(v)))


def limplies(a, b):
    return lor(lnot(a), b)


def ite(c, a, b):
    if c is True:
        return a
    if c is False:
        return b
    return mkint(z3.If(zb(c), zi(a), zi(b)))


def _runs(mask):
    out, p = [], 0
    while mask:
        if mask & 1:
            n = 0
            while mask & 1:
                n += 1
                mask >>= 1
            out.append((p, n))
            p += n
        else:
            mask >>= 1
            p += 1
    return out


def _and_const(x, c):
    if c == 0:
        return z3.IntVal(0)
    if c < 0:                      # x & c == x - (x & ~c)
        return x - _and_const(x, ~c)
    t = z3.IntVal(0)
    for lo, n in _runs(c):
        part = x if lo == 0 else x / (1 << lo)
        t = t + (part % (1 << n)) * (1 << lo)
    return t


def _low_bits_zero(e):
    """k such that e is syntactically a multiple of 2**k."""
    if z3.is_int_value(e):
        v = e.as_long()
        if v == 0:
            return 64
        return (v & -v).bit_length() - 1
    if z3.is_mul(e):
        return sum(_low_bits_zero(c) for c in e.children())
    if z3.is_add(e):
        return min(_low_bits_zero(c) for c in e.children())
    if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_ITE:
        return min(_low_bits_zero(c) for c in e.children()[1:])
    return 0


_bitand = z3.Function("py_bitand", z3.IntSort(), z3.IntSort(), z3.IntSort())


def bitand(a, b):
    if isinstance(b, int):
        return mkint(_and_const(zi(a), b))
    if isinstance(a, int):
        return mkint(_and_const(zi(b), a))
    x, y = zi(a), zi(b)
    if x.eq(y):
        return mkint(x)
    for p, q in ((x, y), (y, x)):
        k = _low_bits_zero(p)
        if k and cur().valid(z3.And(q >= 0, q < (1 << k))):
            return 0
    for u, q in ((x, y), (y, x)):       # u sits in bits k..m-1, where q has a hole
        k = _low_bits_zero(u)
        terms = q.children() if z3.is_add(q) else [q]
        for m in ((k + 4, k + 8, k + 16) if k < 64 else ()):
            hi = [t for t in terms if _low_bits_zero(t) >= m]
            lo = [t for t in terms if _low_bits_zero(t) < m]
            ls = z3.Sum(lo) if lo else z3.IntVal(0)
            if hi and cur().valid(z3.And(u >= 0, u < (1 << m), ls >= 0, ls < (1 << k))):
                return 0
    p = cur()
    if p.try_concretize(b, 8):
        return bitand(a, p.concretize(b, 8))
    if p.try_concretize(a, 8):
        return bitand(p.concretize(a, 8), b)
    if x.get_id() > y.get_id():         # commutative
        x, y = y, x
    r = _bitand(x, y)
    p.assume(z3.And(z3.Implies(z3.And(x >= 0, y >= 0), z3.And(r >= 0, r <= x, r <= y)),
                    z3.Implies(z3.Or(x == 0, y == 0), r == 0)))
    p.approx = True
    return mkint(r)


class SymInt:
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    def _c(self, o, f):
        if not isint(o):
            return NotImplemented
        return mkint(f(self.e, zi(o)))

    def __add__(self, o): return self._c(o, lambda a, b: a + b)
    def __radd__(self, o): return self._c(o, lambda a, b: b + a)
    def __sub__(self, o): return self._c(o, lambda a, b: a - b)
    def __rsub__(self, o): return self._c(o, lambda a, b: b - a)
    def __mul__(self, o):
        if isinstance(o, (list, tuple, str, bytes)):
            raise Unsupported("sequence repeated a symbolic number of times")
        return self._c(o, lambda a, b: a * b)
    __rmul__ = __mul__
    def __neg__(self): return mkint(-self.e)
    def __pos__(self): return self
    def __abs__(self): return mkint(z3.If(self.e >= 0, self.e, -self.e))
    def __invert__(self): return mkint(-self.e - 1)

    @staticmethod
    def _divmod(a, b, what):
        p = cur()
        if isinstance(b, (SymInt, SymBool)):
            if p.fork(zi(b) == 0):
                raise ZeroDivisionError("integer division or modulo by zero")
            if not p.valid(zi(b) > 0):
                if not p.fork(zi(b) > 0):
                    raise Unsupported("division by a negative symbolic number")
            q, r = zi(a) / zi(b), zi(a) % zi(b)       # the definition of div and mod, spelled out for this instance
            p.assume(z3.And(zi(a) == zi(b) * q + r, r >= 0, r < zi(b)))
        elif b == 0:
            raise ZeroDivisionError("integer division or modulo by zero")
        elif b < 0:
            raise Unsupported("division by a negative number")
        return mkint(zi(a) / zi(b)) if what == "div" else mkint(zi(a) % zi(b))

    def __floordiv__(self, o): return self._divmod(self, o, "div") if isint(o) else NotImplemented
    def __rfloordiv__(self, o): return self._divmod(o, self, "div") if isint(o) else NotImplemented
    def __mod__(self, o): return self._divmod(self, o, "mod") if isint(o) else NotImplemented
    def __rmod__(self, o): return self._divmod(o, self, "mod") if isint(o) else NotImplemented

    def __divmod__(self, o):
        return (self // o, self % o)

    def __truediv__(self, o):
        raise Unsupported("float division")
    __rtruediv__ = __truediv__

    def __pow__(self, o):
        raise Unsupported("power of a symbolic int")

    def __rpow__(self, o):
        k = cur().concretize(self, 40)
        return o ** k

    def __lshift__(self, o):
        if not isint(o):
            return NotImplemented
        k = cur().concretize(o, 40)
        if k < 0:
            raise ValueError("negative shift count")
        return mkint(self.e * (1 << k))

    def __rlshift__(self, o):
        k = cur().concretize(self, 40)
        if k < 0:
            raise ValueError("negative shift count")
        return o << k

    def __rshift__(self, o):
        if not isint(o):
            return NotImplemented
        k = cur().concretize(o, 40)
        if k < 0:
            raise ValueError("negative shift count")
        return mkint(self.e / (1 << k))

    def __rrshift__(self, o):
        return o >> cur().concretize(self, 40)

    def __and__(self, o): return bitand(self, o) if isint(o) else NotImplemented
    def __rand__(self, o): return bitand(o, self) if isint(o) else NotImplemented
    def __or__(self, o): return (self + o - bitand(self, o)) if isint(o) else NotImplemented
    def __ror__(self, o): return (self + o - bitand(o, self)) if isint(o) else NotImplemented
    def __xor__(self, o): return (self + o - 2 * bitand(self, o)) if isint(o) else NotImplemented
    __rxor__ = __xor__

    def _k(self, o, f):
        if not isint(o):
            return NotImplemented
        return mkbool(f(self.e, zi(o)))

    def __lt__(self, o): return self._k(o, lambda a, b: a < b)
    def __le__(self, o): return self._k(o, lambda a, b: a <= b)
    def __gt__(self, o): return self._k(o, lambda a, b: a > b)
    def __ge__(self, o): return self._k(o, lambda a, b: a >= b)
    def __eq__(self, o): return self._k(o, lambda a, b: a == b)
    def __ne__(self, o): return self._k(o, lambda a, b: a != b)

    def __bool__(self):
        return cur().fork(self.e != 0)

    def __hash__(self):
        raise Unsupported("hash of a symbolic int")

    def _n(self, *a):
        raise Unsupported("native conversion of a symbolic int")
    __int__ = __index__ = __float__ = __str__ = __repr__ = __format__ = _n

    # int methods used by (refactored) code
    def bit_length(self):
        m = abs(self)
        return floor_log2_plus1(m)

    def to_bytes(self, length=1, byteorder="big", *, signed=False):
        return int_to_bytes(self, length, byteorder, signed)

    def conjugate(self):
        return self


def floor_log2_plus1(m):
    """bit_length of m >= 0 (exact below 2**44, some number above 44 from there on)."""
    e = zi(m)
    p = cur()
    if not p.valid(e >= 0):
        raise Unsupported("bit length of an unbounded int")
    t = z3.Sum([z3.If(e >= (1 << k), 1, 0) for k in range(44)])
    if not p.valid(e < (1 << 44)):
        k = p.int("bits", 0)
        p.assume((k.e > 0) == (e >= (1 << 44)))
        t = t + k.e
    return mkint(t)


def int_to_bytes(v, n, order, signed):
    p = cur()
    lo, hi = (-(1 << 8 * n - 1), (1 << 8 * n - 1) - 1) if signed else (0, (1 << 8 * n) - 1)
    if p.fork(z3.Or(zi(v) < lo, zi(v) > hi)):
        raise OverflowError("int too big to convert")
    bs = [mkint((zi(v) / (1 << 8 * k)) % 256) for k in range(n)]
    if order == "big":
        bs.reverse()
    return SymBytes(bs)


# ------------------------------------------------------------------- bytes
class Rest:
    """An unknown number of further bytes."""

    def __init__(self, name, n):
        self.name, self.n = name, n          # n: z3 Int >= 0


class SymBytes:
    """A bytes value: known number of (symbolic) bytes, then maybe a Rest."""
    __slots__ = ("b", "rest")

    def __init__(self, b, rest=None):
        self.b = list(b)
        self.rest = rest

    def length(self):
        return len(self.b) if self.rest is None else mkint(len(self.b) + self.rest.n)

    def __len__(self):
        if self.rest is None:
            return len(self.b)
        raise Unsupported("native len of symbolic bytes")

    def __bool__(self):
        if self.b:
            return True
        if self.rest is None:
            return False
        return cur().fork(self.rest.n > 0)

    def _need(self, k):
        """Materialise the first k bytes (as far as they exist)."""
        while self.rest is not None and len(self.b) < k:
            if not cur().fork(self.rest.n > 0):
                self.rest = None
                break
            p = cur()
            x = p.int("byte")
            p.assume(z3.And(x.e >= 0, x.e <= 255))
            self.b.append(x)
            self.rest = Rest(self.rest.name, self.rest.n - 1)

    def __getitem__(self, k):
        if isinstance(k, slice):
            if k.step not in (None, 1):
                raise Unsupported("bytes slice with a step")
            lo, hi = k.start, k.stop
            for x in (lo, hi):
                if isinstance(x, SymInt):
                    raise Unsupported("symbolic slice bound")
                if x is not None and x < 0 and self.rest is not None:
                    raise Unsupported("negative slice of unbounded bytes")
            if self.rest is None:
                return mkbytes(self.b[lo:hi])
            self._need(max([x for x in (lo, hi) if x is not None] + [0]))
            if self.rest is None:
                return mkbytes(self.b[lo:hi])
            if hi is None:
                return SymBytes(self.b[lo or 0:], self.rest)
            return mkbytes(self.b[lo:hi])
        if isinstance(k, SymInt):
            raise Unsupported("symbolic index in bytes")
        if k < 0 and self.rest is not None:
            raise Unsupported("negative index in unbounded bytes")
        self._need(k + 1)
        if self.rest is None and not -len(self.b) <= k < len(self.b):
            raise IndexError("index out of range")
        return self.b[k]

    def __iter__(self):
        if self.rest is not None:
            raise Unsupported("iteration over unbounded bytes")
        return iter(list(self.b))

    def __add__(self, o):
        if isinstance(o, (bytes, bytearray)):
            o = SymBytes(o)
        if not isinstance(o, SymBytes):
            return NotImplemented
        if self.rest is not None:
            raise Unsupported("appending to unbounded bytes")
        return SymBytes(self.b + o.b, o.rest)

    def __radd__(self, o):
        if not isinstance(o, (bytes, bytearray)):
            return NotImplemented
        return SymBytes(list(o) + self.b, self.rest)

    def __eq__(self, o):
        if isinstance(o, (bytes, bytearray)):
            o = SymBytes(o)
        if not isinstance(o, SymBytes) or self.rest is not None or o.rest is not None:
            raise Unsupported("comparison of symbolic bytes")
        if len(self.b) != len(o.b):
            return False
        return land(*[mkbool(zi(x) == zi(y)) for x, y in zip(self.b, o.b)])

    def __hash__(self):
        raise Unsupported("hash of symbolic bytes")


def mkbytes(b):
    if all(type(x) is int for x in b):
        return bytes(b)
    return SymBytes(b)


# ------------------------------------------------------------------- strings
class Dec:
    """Decimal text of an int."""
    def __init__(self, v): self.v = v
    def key(self): return ("dec", self.v.e.get_id() if isinstance(self.v, SymInt) else self.v)


class HexP:
    """hex text of an int: spec is '0x' (hex()) or a printf spec such as %02x."""
    def __init__(self, v, spec): self.v, self.spec = v, spec
    def key(self): return ("hex", self.spec, self.v.e.get_id() if isinstance(self.v, SymInt) else self.v)


class Opaque:
    """Unknown text; `parts` says what .split('.', 1) gives, if known."""
    def __init__(self, label, parts=None, nonempty=None, meaning=None):
        self.label, self.parts, self.nonempty, self.meaning = label, parts, nonempty, meaning
    def key(self): return ("opq", id(self))


class SymStr:
    """A rope of literal text and symbolic pieces."""
    __slots__ = ("p",)

    def __init__(self, pieces):
        out = []
        for x in pieces:
            for y in (x.p if isinstance(x, SymStr) else (x,)):
                if isinstance(y, str):
                    if not y:
                        continue
                    if out and isinstance(out[-1], str):
                        out[-1] += y
                        continue
                out.append(y)
        self.p = tuple(out)

    def __add__(self, o):
        if isinstance(o, (str, SymStr)):
            return SymStr([self, o])
        return NotImplemented

    def __radd__(self, o):
        if isinstance(o, str):
            return SymStr([o, self])
        return NotImplemented

    def __bool__(self):
        for x in self.p:
            if isinstance(x, str) or isinstance(x, (Dec, HexP)) or (isinstance(x, Opaque) and x.nonempty is True):
                return True
        conds = [x.nonempty for x in self.p if isinstance(x, Opaque)]
        if any(c is None for c in conds):
            raise Unsupported("truth of unknown text")
        return bool(lor(*conds)) if conds else False

    def keys(self):
        return tuple(x if isinstance(x, str) else x.key() for x in self.p)

    def __eq__(self, o):
        if isinstance(o, SymStr) and self.keys() == o.keys():
            return True
        if isinstance(o, (str, SymStr)):
            raise Unsupported("comparison of unknown text")
        return False

    def __ne__(self, o):
        r = self.__eq__(o)
        return lnot(r)

    def __hash__(self):
        raise Unsupported("hash of symbolic text")

    def _n(self, *a):
        raise Unsupported("native conversion of symbolic text")
    __str__ = __repr__ = __format__ = __len__ = __iter__ = __contains__ = _n


def mkstr(pieces):
    s = SymStr(pieces)
    if all(isinstance(x, str) for x in s.p):
        return "".join(s.p)
    return s


# ------------------------------------------------------------------- paths
STATS = {"queries": 0, "solver_s": 0.0, "paths": 0, "forks": 0, "unknown": 0}
TIMEOUT_MS = 10000


class Path:
    """One run of a harness under a decision prefix."""

    def __init__(self, prefix, report=None, limit=20000):
        self.prefix = prefix
        self.taken = []
        self.alts = []
        self.solver = z3.Solver()
        self.solver.set("timeout", TIMEOUT_MS)
        self.report = report
        self.n = 0
        self.steps = 0
        self.limit = limit
        self.approx = False
        self.trace = []
        self.journal = []           # stack of journals (nested exploration)
        self.overlay = {}           # id(dict) -> list of (key, value)
        self.inputs = []            # (name, z3 const) for counterexamples

    # -- naming
    def fresh(self, name):
        self.n += 1
        return "%s!%d" % (name, self.n)

    def int(self, name, lo=None, hi=None, keep=False):
        c = z3.Int(self.fresh(name))
        if keep:
            self.inputs.append((name, c))
        if lo is not None:
            self.assume(c >= lo)
        if hi is not None:
            self.assume(c <= hi)
        return SymInt(c)

    def bool(self, name):
        return SymBool(z3.Bool(self.fresh(name)))

    # -- solver
    def check(self, *extra):
        STATS["queries"] += 1
        t = time.time()
        r = self.solver.check(*extra)
        STATS["solver_s"] += time.time() - t
        if r == z3.unknown:
            STATS["unknown"] += 1
        return r

    def assume(self, c):
        if isinstance(c, bool):
            if not c:
                raise PathEnd
            return
        self.solver.add(zb(c))

    def feasible(self, c):
        return self.check(zb(c)) != z3.unsat

    def valid(self, c):
        if isinstance(c, bool):
            return c
        c = z3.simplify(zb(c))
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        return self.check(z3.Not(c)) == z3.unsat

    # -- forking
    def decide(self, n, feasible):
        """Pick one of n alternatives; feasible(k) is asked once per new decision."""
        i = len(self.taken)
        if i < len(self.prefix):
            k = self.prefix[i]
        else:
            ok = [k for k in range(n) if feasible(k)]
            if not ok:
                raise PathEnd
            k = ok[0]
            for other in ok[1:]:
                self.alts.append(self.taken + [other])
            STATS["forks"] += len(ok) > 1
            if len(self.taken) > 4000:
                raise Unsupported("path too long")
        self.taken.append(k)
        return k

    def fork(self, c):
        if isinstance(c, bool):
            return c
        c = z3.simplify(zb(c))
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        opts = [c, z3.Not(c)]
        k = self.decide(2, lambda k: self.feasible(opts[k]))
        self.solver.add(opts[k])
        return k == 0

    def choose(self, n):
        return self.decide(n, lambda k: True)

    def try_concretize(self, v, limit):
        if isinstance(v, int):
            return True
        self.solver.push()
        try:
            for _ in range(limit):
                if self.check() != z3.sat:
                    return True
                x = self.solver.model().eval(zi(v), model_completion=True)
                self.solver.add(zi(v) != x)
            return self.check() == z3.unsat
        finally:
            self.solver.pop()

    def concretize(self, v, limit=16):
        """Enumerate the values v can take (at most `limit`), one per path."""
        if isinstance(v, int):
            return int(v)
        vals = []
        i = len(self.taken)
        if i < len(self.prefix):
            k = self.prefix[i]
            self.taken.append(k)
            self.solver.add(zi(v) == k)
            return k
        self.solver.push()
        try:
            while True:
                r = self.check()
                if r == z3.unsat:
                    break
                if r == z3.unknown or len(vals) >= limit:
                    raise Unsupported("cannot enumerate the values of a symbolic int")
                x = self.solver.model().eval(zi(v), model_completion=True).as_long()
                vals.append(x)
                self.solver.add(zi(v) != x)
        finally:
            self.solver.pop()
        if not vals:
            raise PathEnd
        vals.sort()
        for other in vals[1:]:
            self.alts.append(self.taken + [other])
        self.taken.append(vals[0])
        self.solver.add(zi(v) == vals[0])
        return vals[0]

    # -- obligations
    def prove(self, name, c, detail=None):
        """c must hold here, for every value of the symbolic inputs."""
        self.claims = getattr(self, "claims", 0) + 1
        t = time.time()
        if isinstance(c, bool):
            status, model = ("proved" if c else "failed"), None
            if not c:
                if self.check() == z3.unsat:
                    status = "proved"       # dead path
                else:
                    model = self.model()
            back = "evaluation"
        else:
            e = z3.simplify(zb(c))
            if z3.is_true(e):
                status, model, back = "proved", None, "simplifier"
            else:
                self.solver.push()
                self.solver.add(z3.Not(e))
                r = self.check()
                back = "z3"
                status = "proved" if r == z3.unsat else "failed" if r == z3.sat else "unknown"
                model = self.model() if r == z3.sat else None
                if status == "unknown":
                    r2 = second_solver(self.solver)
                    if r2 == "unsat":
                        status, back = "proved", "cvc5"
                self.solver.pop()
        if self.approx and status == "failed":
            status = "unknown"              # an over-approximated operation is on this path
        self.report.add(name, status, back, time.time() - t, model, detail)
        return status == "proved"

    def model(self):
        try:
            m = self.solver.model()
            return {n: str(m.eval(c, model_completion=True)) for n, c in self.inputs}
        except z3.Z3Exception:
            return {}


def second_solver(solver):
    """Ask cvc5 the same query (z3 answered unknown)."""
    import subprocess
    try:
        r = subprocess.run(["cvc5", "--lang=smt2", "--tlimit=20000"], input="(set-logic ALL)\n" + solver.to_smt2(),
                           capture_output=True, text=True, timeout=30)
        return r.stdout.strip().split("\n")[0]
    except Exception:  # noqa: BLE001
        return "unknown"


class Report:
    """All obligations of one check run."""

    def __init__(self):
        self.ob = {}            # name -> dict

    def add(self, name, status, back, dt, model=None, detail=None):
        o = self.ob.setdefault(name, {"status": "proved", "instances": 0, "time": 0.0, "backends": {},
                                      "model": None, "detail": None})
        o["instances"] += 1
        o["time"] += dt
        o["backends"][back] = o["backends"].get(back, 0) + 1
        rank = {"proved": 0, "unknown": 1, "unsupported": 1, "exception": 1.5, "failed": 2}
        if rank[status] > rank[o["status"]]:
            o["status"] = status
            o["model"] = model
            o["detail"] = detail

    def merge(self, other):
        for n, o in other.items():
            if n not in self.ob:
                self.ob[n] = o
                continue
            p = self.ob[n]
            p["instances"] += o["instances"]
            p["time"] += o["time"]
            for k, v in o["backends"].items():
                p["backends"][k] = p["backends"].get(k, 0) + v
            rank = {"proved": 0, "unknown": 1, "unsupported": 1, "exception": 1.5, "failed": 2}
            if rank[o["status"]] > rank[p["status"]]:
                p.update(status=o["status"], model=o["model"], detail=o["detail"])


def explore(harness, report, maxpaths=20000, deadline=None):
    """Run `harness(path)` on every feasible path."""
    global CUR
    work = [[]]
    count = 0
    while work:
        prefix = work.pop()
        p = Path(prefix, report)
        old, CUR = CUR, p
        try:
            harness(p)
        except PathEnd:
            pass
        finally:
            CUR = old
        work.extend(p.alts)
        count += 1
        STATS["paths"] += 1
        if count > maxpaths:
            raise Unsupported("too many paths")
        if deadline and time.time() > deadline:
            raise Unsupported("time limit")
    return count
