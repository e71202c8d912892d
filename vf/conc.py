"""Concrete side: generators, oracles and drivers over the real code in /repo.

Used (a) to turn a failed obligation into a failing input, (b) as the always-on
run-time check of the same contracts, (c) as the bounded stand-in when a changed
function leaves the engine's subset.  Everything here calls the real code.
"""
import io, os, random, re, sys, ast
from . import hid

REPO = os.environ.get("VF_REPO", "/repo")
if REPO not in sys.path:
    sys.path.insert(0, REPO)
sys.dont_write_bytecode = True

from hrdc.stream import item as _item, optimizer as _opt          # noqa: E402
from hrdc.stream import parser as _parser, formatter as _formatter  # noqa: E402
from hrdc import usage as _usage, descriptor as _desc              # noqa: E402
from hrdc.descriptor import streamer as _streamer, dumper as _dumper, extractor as _extractor  # noqa: E402
from hrdc.descriptor import descriptor as _d                       # noqa: E402

# ---------------------------------------------------------------- item table
# (kind, tag) -> (name, signed): HID 1.11 section 6.2.2
ITEMS = {
    (0, 8): ("Input", 0), (0, 9): ("Output", 0), (0, 11): ("Feature", 0),
    (0, 10): ("Collection", 0), (0, 12): ("EndCollection", 0),
    (1, 0): ("UsagePage", 0), (1, 1): ("LogicalMinimum", 1), (1, 2): ("LogicalMaximum", 1),
    (1, 3): ("PhysicalMinimum", 1), (1, 4): ("PhysicalMaximum", 1), (1, 5): ("UnitExponent", 1),
    (1, 6): ("Unit", 0), (1, 7): ("ReportSize", 0), (1, 8): ("ReportID", 0), (1, 9): ("ReportCount", 0),
    (1, 10): ("Push", 0), (1, 11): ("Pop", 0),
    (2, 0): ("Usage", 0), (2, 1): ("UsageMinimum", 0), (2, 2): ("UsageMaximum", 0),
    (2, 3): ("DesignatorIndex", 0), (2, 4): ("DesignatorMinimum", 0), (2, 5): ("DesignatorMaximum", 0),
    (2, 7): ("StringIndex", 0), (2, 8): ("StringMinimum", 0), (2, 9): ("StringMaximum", 0),
    (2, 10): ("Delimiter", 0),
}
NOVALUE = {(0, 12), (1, 10), (1, 11)}


def spec_bytes(kind, tag, value):
    """The shortest encoding of an item (HID 1.11, 6.2.2.2)."""
    signed = ITEMS[kind, tag][1]
    if (kind, tag) == (0, 12):
        return bytes([tag << 4 | kind << 2])
    for code, n in ((1, 1), (2, 2), (3, 4)):
        lo, hi = (-(1 << 8 * n - 1), (1 << 8 * n - 1) - 1) if signed else (0, (1 << 8 * n) - 1)
        if lo <= value <= hi:
            return bytes([tag << 4 | kind << 2 | code]) + (value % (1 << 8 * n)).to_bytes(n, "little")
    return None


def spec_parse(blob):
    """Triples of a well-formed descriptor; None when it is malformed."""
    out, i = [], 0
    while i < len(blob):
        h = blob[i]
        n = (0, 1, 2, 4)[h & 3]
        kt = (h >> 2 & 3, h >> 4)
        if kt not in ITEMS or i + 1 + n > len(blob):
            return None
        v = int.from_bytes(blob[i + 1:i + 1 + n], "little", signed=bool(ITEMS[kt][1]) and n > 0)
        if kt in NOVALUE and v:
            return None
        out.append(kt + (v,))
        i += 1 + n
    return out


def mk(t):
    return _item.Item.registry[t[0], t[1]](t[2])


class Sink:
    """Downstream stand-in: records items, and that it is closed exactly once, last."""

    def __init__(self):
        self.l = []
        self.closed = 0
        self.late = False

    def append(self, i):
        if self.closed:
            self.late = True
        self.l.append(i)

    def close(self):
        self.closed += 1

    def ok(self):
        return self.closed == 1 and not self.late

    def triples(self):
        return [hid.triple(i) for i in self.l]


def mined_ints():
    """Integer literals of the tree under test, so guarded special cases get sampled."""
    out = set()
    for root, dirs, files in os.walk(os.path.join(REPO, "hrdc")):
        if os.path.basename(root) == "usage":
            files = [f for f in files if f in ("usage.py", "button.py", "ordinal.py")]
        for f in files:
            if f.endswith(".py"):
                try:
                    tree = ast.parse(open(os.path.join(root, f), encoding="utf-8").read())
                except SyntaxError:
                    continue
                for n in ast.walk(tree):
                    if isinstance(n, ast.Constant) and type(n.value) is int:
                        out.add(n.value)
    return sorted(out)


MINED = mined_ints()
SMALL_MINED = [v for v in MINED if 0 <= v <= 300]


def boundary(signed):
    b = set()
    for k in list(range(0, 33)):
        for d in (-2, -1, 0, 1, 2):
            b.add((1 << k) + d)
            b.add(-(1 << k) + d)
    for v in MINED:
        for d in (-1, 0, 1):
            b.add(v + d)
            b.add(-v + d)
    return sorted(b)


class Contract(Exception):
    """A contract of the real code failed on a concrete input."""


def attempt(fn, *a):
    """Result of a call, or the exception it raised."""
    try:
        return ("ok", fn(*a))
    except Exception as e:  # noqa: BLE001
        return ("raise", type(e).__name__, str(e)[:120])
