"""Small functions that exercise the Python the engine claims to interpret.  selftest runs each natively and
through the engine: on concrete arguments, and on unknown arguments, where on every path a model of the
path condition is run natively and must give what the engine says the path gives.
Annotations tell what an argument is: int (unknown), or a list of possible values."""
import functools
import itertools
import re
import struct
from enum import IntEnum, IntFlag


def arithmetic(a: int, b: int):
    return a + b, a - b, a * 3, -a, abs(b), +a, ~a


def division(a: int, b: (1, 2, 7, 8)):
    return a // b, a % b, divmod(a, b)


def bits(a: int):
    return a & 3, a | 4, a ^ 5, a << 2, a >> 1, a & 0xf0, (a >> 4) & 15, a & ~3


def compare(a: int, b: int):
    if a < b <= 3:
        return "lt"
    elif a == b:
        return "eq"
    return "gt" if a > b else "odd"


def boolean(a: int, b: int):
    return (a and b), (a or b), not a, a > 0 and b > 0, a > 0 or b > 0, bool(a), (a > b) + 1


def minmax(a: int, b: int):
    return min(a, b), max(a, b, 0), min([a, b]), max((a, b)), sum([a, b, 1]), sum((x for x in (a, b)), 3)


def width(a: int):
    if -128 <= a < 128:
        return a.to_bytes(1, "little", signed=True)
    return a.to_bytes(2, "little", signed=True)


def packing(a: int):
    return struct.pack("<h", a), struct.unpack("<H", struct.pack("<H", a & 0xffff))


def from_bytes(a: (b"", b"\x01", b"\xff\x01", b"\x80")):
    return int.from_bytes(a, "little"), int.from_bytes(a, "little", signed=True), int.from_bytes(a, "big")


def while_loop(n: int):
    k, t = 0, 0
    while k < 5:
        k += 1
        if k == n:
            continue
        if k == n + 3:
            break
        t += k
    else:
        t += 100
    return k, t


def for_loop(l: ([], [1], [3, 1, 2], [0, 0, 5])):
    out = []
    for i, x in enumerate(l):
        if x == 0:
            continue
        for j in range(i, i + x, 2):
            out.append((i, j))
            if j > 4:
                break
        else:
            out.append("all")
    return out


def mutated_while_iterating(l: ([1, 2, 3], [5])):
    out = []
    for x in l:
        out.append(x)
        if len(l) < 5:
            l.append(x + 10)
    return out, l


def comprehensions(a: int, l: ([], [1, 2, 3], [4, 4])):
    return ([x + a for x in l if x != 2], {x: x * 2 for x in l}, sorted({x % 2 for x in l}), [(x, y) for x in l for y in range(x) if y],
            [x for x in l][-1:] or None)


def scope_of_comprehension(x: int):
    l = [x for x in range(3)]
    return x, l


def slices(l: ([], [1], [1, 2, 3, 4, 5])):
    m = list(l)
    m[1:2] = ["a", "b"]
    del m[:1]
    return l[1:], l[:-1], l[::2], l[-2:], l[::-1], m, l[5:9]


def list_methods(a: int, l: ([3, 1, 2], [])):
    m = list(l)
    m.append(a)
    m.insert(0, 9)
    m.extend(x for x in (7, 8))
    m += [5]
    n = m.pop()
    o = m.pop(0)
    m.reverse()
    k = m.index(7)
    c = m.count(7)
    m.remove(7)
    return m, n, o, k, c, len(m), 8 in m, m + [1], [0] * 3, sorted(l), sorted(l, reverse=True), list(reversed(l))


def alias():
    a = [[]] * 2
    a[0].append(1)
    b = a
    b.append(2)
    c = list(a)
    c.append(3)
    return a, b is a, c


def dict_methods(k: ("a", "b", "z")):
    d = {"a": 1, "b": 2}
    e = dict(d, c=3)
    e.update({"d": 4})
    x = d.pop(k, None)
    d.setdefault("n", []).append(1)
    try:
        y = e[k]
    except KeyError:
        y = "none"
    e.pop("a")
    return d, list(e.items()), list(e), x, y, e.get(k), e.get(k, 7), k in d, len(e), {**d, "q": 1}


def dict_order():
    d = {}
    for k in (3, 1, 2):
        d[k] = str(k)
    del d[1]
    d[1] = "again"
    d[3] = "same place"
    return list(d), list(d.values())


def sets(l: ([1, 2, 2], [3], [])):
    s = set(l)
    s.add(9)
    t = {2, 3, 9}
    s.discard(100)
    return sorted(s & t), sorted(s | t), sorted(s - t), sorted(s ^ t), 9 in s, len(s), s <= t, s == t, bool(set())


def strings(s: ("", "abc", " a b ", "0x12, 0xff")):
    return (s + "x", s * 2, s.upper(), s.strip(), s.split(), s.split(","), s.replace("a", "b"), ",".join([s, s]), s[:1], s[-1:], len(s), "a" in s, s.startswith("a"), s.endswith("c"),
            s.find("b"), s == "abc", s.encode(), s.lower(), s.rstrip(), s.lstrip("0"), s.partition(","), s.splitlines(), s.isdigit(), s < "b")


def formats(a: (0, 5, 255, 65536), s: ("", "q")):
    return "%d %02x %s %r %#x" % (a, a, s, s, a), "{} {:x} {0!r}".replace("{0!r}", "") .format(a, a), f"{a:#x}{s!r}{a:>6}{s}", "{:04X}|{n}".format(a, n=s), format(a, "08b"), hex(a), str(a), repr(s), "%5s|%-5s|" % (s, s)


def conversions(s: ("12", "0x1f", "-3", "zz")):
    try:
        return int(s, 0)
    except ValueError as e:
        return type(e).__name__


def exceptions(a: int):
    out = []
    try:
        try:
            if a == 0:
                raise ValueError("zero")
            if a == 1:
                raise KeyError("one")
            if a == 2:
                out.append([][a])
            out.append("fine")
        except ValueError as e:
            out.append(str(e))
            raise RuntimeError("again") from e
        except (KeyError, IndexError):
            out.append("lookup")
        else:
            out.append("else")
        finally:
            out.append("finally")
    except RuntimeError:
        out.append("outer")
    return out


def finally_return(a: int):
    for i in range(3):
        try:
            if i == a:
                return i
        finally:
            if i == 2:
                return "last"
    return None


def generator(n: int):
    log = []

    def g():
        log.append("start")
        for i in range(3):
            if i == n:
                return
            yield i
            log.append(i)
        log.append("end")
    out = []
    for x in g():
        log.append("got")
        out.append(x)
    return out, log


def generator_taken_apart(n: int):
    def g():
        yield 1
        if n > 0:
            yield n
    h = g()
    return next(h, "none"), next(h, "none"), next(g()), list(h)


def yield_from():
    def a():
        yield 1
        yield 2
        return 3

    def b():
        yield from a()
        yield 3
    return list(b()), sum(b()), [x for x in b() if x != 2], tuple(b()), max(b())


def closures(a: int):
    n = 0
    fs = []
    for i in range(3):
        fs.append(lambda j=i: (i, j))

    def inc(k=1):
        nonlocal n
        n += k
        return n
    inc()
    inc(a)
    return n, [f() for f in fs], inc(k=2)


def arguments(a: int):
    def f(x, y=2, *r, z=3, **k):
        return x, y, r, z, sorted(k.items())
    return f(a), f(1, a), f(1, 2, 3, 4), f(1, z=a), f(x=a, q=5), f(*[1, 2, 3], **{"w": a}), f(*(a,), y=9)


def unpacking(l: ([1, 2, 3], [1, 2])):
    a, *b = l
    (c, d), e = (1, l[:1]), 5
    x = y = [0]
    y.append(1)
    first, second = l[:2]
    first, second = second, first
    return a, b, c, d, e, x, first, second


def augmented(a: int):
    d = {"k": 1}
    d["k"] += a
    l = [1, 2]
    l[0] -= 1
    l[-1] *= 3
    t = (1,)
    t += (2,)
    a |= 8
    a <<= 1
    return d, l, t, a


def any_all(l: ([], [0], [1, 2], [0, 3])):
    return any(l), all(l), any(x > 2 for x in l), all(x < 3 for x in l), next((x for x in l if x), "none"), [i for i, x in enumerate(l) if x]


def zips(l: ([], [1, 2, 3], [4])):
    return list(zip(l, "abc")), dict(zip("xy", l)), list(map(lambda x: x + 1, l)), list(filter(None, l)), list(enumerate(l, 2)), list(range(5, 0, -2)), list(reversed(range(3)))


def ternary_chain(a: int):
    x = None if a < 0 else a
    if x is None:
        return "none"
    if x is not None and not x:
        return "zero"
    return x


class Base:
    count = 0
    kinds = ("a", "b")

    def __init__(self, v, name=None):
        self.v = v
        self.name = name or "base"

    def __eq__(self, o):
        return isinstance(o, Base) and self.v == o.v

    def __hash__(self):
        return 7

    def __len__(self):
        return 3

    def __iter__(self):
        yield self.v
        yield self.v + 1

    def __getitem__(self, k):
        return self.v + k

    def __contains__(self, k):
        return k == self.v

    def __add__(self, o):
        return type(self)(self.v + int(o))

    def __radd__(self, o):
        return Base(o * 100 + self.v)

    def __int__(self):
        return self.v

    def __bool__(self):
        return self.v != 0

    def __str__(self):
        return "<%s>" % self.name

    def __repr__(self):
        return "Base(%r)" % (self.name,)

    def __call__(self, x):
        return self.v, x

    def __lt__(self, o):
        return self.v < o.v

    def __enter__(self):
        self.v += 1
        return self

    def __exit__(self, t, e, b):
        self.v = -self.v
        return t is KeyError

    @property
    def twice(self):
        return self.v * 2

    @classmethod
    def make(cls, v):
        return cls(v)

    @staticmethod
    def plain(v):
        return v + 1

    def hook(self):
        return "base"

    def run(self):
        return self.hook(), self.kinds


class Derived(Base):
    kinds = ("c",)

    def __init__(self, v):
        super().__init__(v, "derived")
        self.extra = [v]

    def hook(self):
        return "derived+" + super().hook()


def objects(a: int):
    b, d = Base(a), Derived(a + 1)
    return (b == Base(a), b != d, len(b), list(d), d[2], a in b, (b + d).v, (3 + b).v, int(d), bool(b), b(1), b < d, d.twice, Derived.make(2).v, Base.plain(a),
            d.run(), b.run(), isinstance(d, Base), type(d).__name__, d.extra, getattr(d, "nothing", 5), hasattr(b, "v"), hasattr(b, "w"), issubclass(Derived, Base))


def object_text():
    return str(Base(1, "n")), repr(Base(1)), "%s %r" % (Base(1), Derived(2)), f"{Base(1)}", str([Base(1)])


def attributes(a: int):
    b = Base(a)
    b.other = a + 1
    setattr(b, "third", 3)
    del b.other
    b.v += 5
    return sorted(b.__dict__), b.v, b.third, hasattr(b, "other")


def context(a: int):
    b = Base(a)
    try:
        with b as c:
            if c.v == 1:
                raise KeyError("swallowed")
            if c.v == 2:
                raise ValueError("kept")
            c.inner = True
    except ValueError:
        return "kept", b.v
    return b.v, hasattr(b, "inner")


class Color(IntEnum):
    RED = 1
    GREEN = 2


class Flags(IntFlag):
    A = 1
    B = 2
    C = 256


def enums(a: (1, 2, 3)):
    try:
        c = Color(a)
    except ValueError:
        return "no"
    return c, c.name, int(c), c == a, Color["RED"], [x.name for x in Color], Flags.A | Flags.C, bool(Flags.B & 1), c + 1, Color.GREEN in (1, 2)


def dispatch(a: int):
    def one():
        return 1

    def two():
        return 2
    return {0: one, 1: two}.get(a, lambda: "other")()


def recursion(n: (0, 1, 5)):
    def f(n):
        return 1 if n < 2 else n * f(n - 1)

    def depth(l):
        return 1 + max([depth(x) for x in l], default=0) if isinstance(l, list) else 0
    return f(n), depth([[], [[n]]])


def functional(l: ([1, 2, 3], [5])):
    return functools.reduce(lambda a, b: a * 10 + b, l), list(itertools.chain(l, [9])), list(itertools.islice(itertools.count(3), 2))


def patterns(s: ("0x12, 0xAB", "nothing", "/* c */ 0x1")):
    return re.sub(r"/\*.*?\*/", "", s), re.findall(r"0x([0-9a-fA-F]+)", s), bool(re.match(r"0x", s)), [m.group(0) for m in re.finditer(r"[a-z]+", s)]


def bytes_ops(b: (b"", b"\x01\x02\x03", b"abc")):
    return b[:1], b[1:], len(b), list(b), b + b"x", bytes([1, 2]), b.hex(), b == b"abc", b"" .join([b, b]), bytes(3), [x for x in b if x > 1], b[0] if b else None


def chained(a: int):
    l = []

    def f(x):
        l.append(x)
        return x
    r = f(1) < f(a) < f(3)
    s = f(0) and f(5)
    return r, s, l


def walrus(a: int):
    if (n := a + 1) > 2:
        return n
    return -n


def match_is(a: (None, 0, False, "x", [])):
    return a is None, a is not None, a == 0, not a, isinstance(a, int), isinstance(a, (str, list)), type(a).__name__


def global_read(a: int):
    return TABLE.get(a, DEFAULT), len(TABLE)


TABLE = {1: "one", 2: "two"}
DEFAULT = "other"


def asserting(a: int):
    try:
        assert a > 0, "positive"
    except AssertionError as e:
        return str(e)
    return "ok"


def inner_class(a: int):
    class Local(Base):
        k = 5

        def get(self):
            return self.v + self.k
    return Local(a).get(), isinstance(Local(1), Base)


def star_display(l: ([], [1, 2])):
    return [0, *l, 9], (*l, 1), {*l, 5} == set(l) | {5}


def loop_accumulates(a: int, b: int):
    best = None
    for x in (a, b, 3):
        if best is None or x > best:
            best = x
    return best


def sort_key(a: int, b: int):
    return sorted([2, 1, 3], key=lambda x: -x), sorted([("b", 1), ("a", 2)]), max([1, 5, 2], key=lambda x: -x), a == b


def changed_while_iterating(a: int):
    d = {1: "a", 2: "b"}
    out = []
    try:
        for k in d:
            out.append(k)
            if a == k:
                d[k + 10] = "c"
    except RuntimeError:
        out.append("changed")
    try:
        for k, v in d.items():
            if a > 2:
                d.pop(k)
    except RuntimeError:
        out.append("again")
    return out, d


def enumerate_changed(a: int):
    l = [1, 2]
    out = []
    for i, x in enumerate(l):
        out.append((i, x))
        if x == a:
            l.append(7)
    return out


def short_circuit(a: int):
    l, log = [1, None, 3], []

    def f(x):
        log.append(x)
        return x == 1
    return any(x + a > 0 for x in l[:1]), any(x + 1 > 0 for x in l), next((x + a for x in l), None), log


def short_circuit_effects(a: int):
    log = []

    def f(x):
        log.append(x)
        return x == a
    return any(f(x) for x in (1, 2, 3)), log


def full_effects(a: int):
    log = []

    def f(x):
        log.append(x)
        return x + a
    return list(f(x) for x in (1, 2)), sum(f(x) for x in (3, 4)), log


def late_generator(a: int):
    l = [a]
    g = (x + l[0] for x in [1, 2])
    l[0] = 100
    return list(g)


def views():
    d = {"a": 1}
    k, v = d.keys(), d.values()
    d["b"] = 2
    return list(k), sum(v), "b" in k, len(v)


def mapping_effects(a: int):
    log = []
    m = map(lambda x: log.append(x) or x, (1, a))
    return next(m), list(log)


def raising_generator(a: int):
    try:
        return [10 // x for x in (1, 2, a - a)]
    except ZeroDivisionError:
        return "zero"


def for_over_genexpr(a: int):
    l, out = [a, 2, 3], []
    for x in (y + 1 for y in l if y != 2):
        out.append(x)
        if x == 1:
            l[2] = 50
        if x == 6:
            break
    return out, l


def filtered_division(a: int, b: int):
    return [10 // (x - 1 if x > 1 else 1) for x in (a, b) if x], [x for x in (a, b, 0) if x > 1], len([1 for x in (a, b) if x == 2])


def filtered_lookup(a: int):
    d = {1: "one"}
    return [d[x] for x in (a, 1) if x in d]


def bytearrays(a: int):
    b = bytearray()
    b.append(a & 0xff)
    b.extend([1, 2])
    b += b"\x03"
    c = bytearray(b"ab") + b"c"
    try:
        b.append(a)
        e = "fits"
    except ValueError:
        e = "no"
    return bytes(b), len(b), b[1], bytes(b[1:]), bytes(c), c == b"abc", e, c.hex(), b"x" + c, bool(bytearray()), isinstance(c, bytearray), isinstance(c, (bytes, list))


def operator_functions(a: int, b: int):
    import operator as o
    return (o.add(a, b), o.sub(a, b), o.mul(a, 3), o.lshift(a, 2), o.rshift(a, 1), o.and_(a, 3), o.or_(a, 4), o.xor(a, 1), o.neg(a), o.eq(a, b), o.lt(a, b), o.ge(a, b),
            o.not_(a), o.truth(b), o.contains([1, 2], a), o.iadd([1], [a]), o.itemgetter(1)([a, b]), o.itemgetter(0, 1)([a, b]), o.invert(a), o.ne(a, 2))


# ---- lists of unknown length (list: an unknown number of unknown integers)
def list_copy(xs: list):
    return [x for x in xs], list(xs), xs[:], len(xs), bool(xs), xs + [1]


def list_map(xs: list, a: int):
    return [x + a for x in xs], list(map(lambda x: x * 2, xs)), [(x, a) for x in xs]


def list_append(xs: list):
    out = [7]
    for x in xs:
        out.append(x)
        out.append(x + 1)
    return out


def list_enumerate(xs: list):
    return [i + x for i, x in enumerate(xs)]


def list_pairs(xs: list):
    return [a - b for a, b in zip(xs, xs[1:])]


def list_refuse(xs: list):
    for x in xs:
        if x > 2:
            raise ValueError("too big")
    return len(xs)


def list_refuse_pairs(xs: list):
    for a, b in zip(xs, xs[1:]):
        if a + 1 != b:
            raise ValueError("gap")
    return xs


def list_drain(xs: list):
    out = []
    while xs:
        out.append(xs.pop(0))
    return out, xs


def list_drain_len(xs: list, a: int):
    out = []
    while len(xs) > 0:
        x = xs.pop(0)
        out.append(x + a)
    xs.append(a)
    return out, xs


def list_drain_peek(xs: list):
    out = []
    while xs:
        x = xs.pop(0)
        out.append(x + len(xs))
    return out


def list_drain_grow(xs: list):
    n = 0
    while xs:
        x = xs.pop(0)
        n += 1
        if n < 3 and x == 1:
            xs.append(2)
    return n


def list_drain_alias(xs: list):
    ys, out = xs, []
    while xs:
        out.append((xs.pop(0), bool(ys)))
    return out


def list_drain_some(xs: list):
    out = []
    while xs:
        out.append(xs.pop(0))
        if len(out) > 1:
            break
    return out, xs


def list_any(xs: list):
    return any(x == 1 for x in xs), all(x > 0 for x in xs)


def list_effects(xs: list):
    out = [0]
    list(map(out.append, xs))
    return out


def list_effects_unused(xs: list):
    out = [0]
    map(out.append, xs)
    return out


def list_equal(xs: list, a: int):
    return xs == [x for x in xs], [x for x in xs] == list(range(a, a + len(xs))), xs == list(xs)


def list_consecutive(xs: list):
    if [int(x) for x in xs] != list(range(2, 2 + len(xs))):
        raise ValueError("gap")
    return xs


def list_ends(xs: list):
    if not xs:
        return None
    return xs[0], xs[-1]


def list_last(xs: list):
    last = None
    for x in xs:
        last = x
    return last


def list_count(xs: list):
    n = 0
    for x in xs:
        n += 1
    return n


def list_filter(xs: list):
    return [x for x in xs if x > 1]


def list_in(xs: list, a: int):
    return a in xs


def list_range(a: int):
    return [i * 2 for i in range(a)], list(range(1, a))


def list_index_loop(xs: list):
    out = []
    for i in range(len(xs)):
        out.append(xs[i])
    return out


def list_reversed(xs: list):
    return list(reversed(xs)), xs[::-1]


def list_extend(xs: list):
    out = []
    out.extend(xs)
    out += xs
    return out


def list_clear(xs: list):
    ys = xs
    xs.clear()
    return ys, len(ys)


def list_swap(xs: list):
    ys, xs = xs, []
    return ys, xs


def list_first_match(xs: list):
    for x in xs:
        if x == 1:
            return True
    return False


def list_objects(xs: list):
    class_ = _Box
    bs = [class_(x) for x in xs]
    return [b.v for b in bs], [b.v for b in bs if True]


class _Box:
    def __init__(self, v):
        self.v = v


def list_attr_carried(xs: list):
    b = _Box(0)
    for x in xs:
        b.v = x
    return b.v


class _Log:
    def __init__(self):
        self.got, self.text = [], ""

    def write(self, t):
        self.text += t

    def put(self, x):
        self.got.append(x)


def list_for_filter(xs: list, a: int):
    log = _Log()

    def keep(x):
        return x != a
    for x in filter(keep, xs):
        log.put(x)
    return log.got


def list_for_map(xs: list):
    log = _Log()
    for b in map(_Box, xs):
        log.put(b.v)
    return log.got


def list_for_genexp(xs: list, a: int):
    log = _Log()
    x = a
    for y in (x + 1 for x in xs if x > 0):
        log.put(y)
    log.put(x)
    return log.got


def list_for_filter_none(xs: list):
    log = _Log()
    for x in filter(None, xs):
        log.put(x)
    return log.got


def list_count_up(a: int, b: int):
    out = []
    n = a
    while n <= b:
        out.append(n * 2)
        n += 1
    return out, n


def list_count_below(a: int, b: int):
    out = []
    n = a
    while n < int(b):
        out.append(n)
        n += 1
    return out, n


def print_to(a: int):
    log = _Log()
    print("value", a, file=log)
    print(a, a + 1, sep=", ", end=";", file=log)
    return log.text
