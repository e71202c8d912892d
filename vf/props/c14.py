"""C14: the command-line tools."""
import argparse
import ast
import builtins
import contextlib
import gc
import importlib
import io
import os
import shutil
import subprocess
import sys
import tempfile
import warnings
from ..lib import *
from .. import conc, hid, dec, interp
from .c03 import lex_hex, lex_code
import hrdc.converter as _converter
import hrdc.descriptor.compiler as _compiler

LEVEL = "proof"
TRUSTED = ["vf/interp.py (AST semantics of Python, cross-checked against CPython by selftest)",
           "argparse (run for real on every command line of the unit; argparse.FileType opens the file of that name, standard input or output for -)",
           "Python flushes and closes files and standard output when the program ends"]
ASSUMPTIONS = ["the parts by their contracts: readers (C02, C03), writers (C02, C03), optimizers (C04), compilation (C05), decompilation (C07), source text (C09)",
               "command lines: every format or its default, every optimization option, given or not, in short or long form, each file named or left out"]
RULE = "a case = one tool run in process on one command line and input, its output compared with the descriptor's bytes; distinct by its JSON text"
QUICK_S, QUICK_N, THOROUGH_S = 12, 700, 200

FORMATS = ("binary", "hex", "code")


# ------------------------------------------------------------------ proof
class File:
    """An open file."""
    _vf_class = True

    def __init__(self, log, mode, name):
        self.log, self.mode, self.name = log, mode, name

    def native(self, what):
        def f(it, *a):
            self.log.append((what, self) + a)
            raise Unsupported("a tool that %ss files itself" % what)
        f._vf_native = True
        return f

    def __getattr__(self, n):
        if n in ("read", "write", "close", "flush", "writelines", "readlines", "seek", "fileno"):
            return self.native(n)
        if n == "buffer":
            return File(self.log, self.mode + "b", self.name)
        raise AttributeError(n)


class Part:
    """A part of a tool, by its contract."""
    _vf_class = True

    def __init__(self, log, what, cls, *args):
        self.log, self.what, self.cls, self.args = log, what, cls, args

    def __getattr__(self, n):
        if n.startswith("__") or n not in {"reader": ("read",), "writer": ("close",), "optimizer": ("close",), "description": ("accept",)}.get(self.what, ()):
            raise AttributeError(n)

        def f(it, *a, **k):
            if k or (n in ("read", "close") and a):
                raise Unsupported("%s of another shape" % n)
            self.log.append((n, self) + a)
            if n == "read" and isinstance(self.args[1], _extractor.Extractor):
                self.args[1].root = Part(self.log, "description", None)
        f._vf_native = True
        return f


def hooks(it, log):
    def reader(it, c, args, kwargs):
        if len(args) != 2 or kwargs:
            raise Unsupported("reader made another way")
        return Part(log, "reader", c, *args)

    def writer(it, c, args, kwargs):
        if len(args) != 1 or kwargs:
            raise Unsupported("writer made another way")
        return Part(log, "writer", c, *args)

    def streamer(it, c, args, kwargs):
        if len(args) != 1 or kwargs:
            raise Unsupported("streamer made another way")
        return Part(log, "streamer", c, *args)

    def dumper(it, c, args, kwargs):
        if len(args) > 1 or kwargs:
            raise Unsupported("dumper made another way")
        return Part(log, "dumper", c, *args)
    it.class_hooks += [(_parser.Parser, reader), (_formatter.Formatter, writer), (_streamer.Streamer, streamer), (_dumper.Dumper, dumper)]

    def optimize(it, args, kwargs):
        if len(args) != 2 or kwargs:
            raise Unsupported("optimization in part")
        return Part(log, "optimizer", None, args[1])
    it.hooks[_opt.Optimizer.new.__func__] = optimize


@contextlib.contextmanager
def command_line(argv, log):
    class FileType:
        def __init__(self, mode="r", bufsize=-1, encoding=None, errors=None):
            self.mode = mode

        def __call__(self, name):
            return File(log, self.mode, name)

    def no(*a, **k):
        raise Unsupported("files opened another way")
    old = sys.argv, argparse.FileType, sys.stdout, sys.stderr, sys.stdin
    sys.argv, argparse.FileType = ["tool"] + argv, FileType
    sys.stdin, sys.stdout, sys.stderr = File(log, "r", "-"), File(log, "w", "-"), io.StringIO()
    had = {f: interp._BUILTINS.get(f) for f in (builtins.open, builtins.print)}

    def pr(it, *a, **kw):
        if kw.get("file") is None or isinstance(kw["file"], File):
            log.append(("print",))
    interp._BUILTINS[builtins.open] = no
    interp._BUILTINS[builtins.print] = pr
    try:
        yield
    finally:
        sys.argv, argparse.FileType, sys.stdout, sys.stderr, sys.stdin = old
        for f, m in had.items():
            if m is None:
                interp._BUILTINS.pop(f, None)
            else:
                interp._BUILTINS[f] = m


def option(short, long, value, style):
    if style == 0:
        return [short, value] if value is not None else [short]
    return ["%s=%s" % (long, value)] if value is not None else [long]


UNKNOWN = ("intel", "HEX", "Binary", "cod", "hexa", "parser", "formatter")
ASKED = (None,) + FORMATS + UNKNOWN


def finish(p, it, main, args, argv, log, refused=False):
    """Run the tool."""
    with command_line(argv, log):
        if refused:
            try:
                it.call(main, args)
                bad = True
            except SystemExit as e:
                bad = e.code in (None, 0)
            except Exception:       # noqa: BLE001
                bad = False
            p.prove("an unknown format is refused", not bad)
            p.prove("an unknown format is refused: nothing is written", not any(e[0] in ("print", "write", "accept") for e in log))
            raise PathEnd
        try:
            it.call(main, args)
        except SystemExit as e:
            p.prove("the command line is understood", e.code in (None, 0))
            raise PathEnd
    p.prove("nothing else is written", not any(e[0] in ("print", "write") for e in log))
    log[:] = [e for e in log if e[0] != "print"]


def known(files, mode, name, text):
    """The file of that name, open for that; as text where needed."""
    return isinstance(files, File) and files.name == name and files.mode.rstrip("bt") == mode and not (text and "b" in files.mode)


def unit_converter(report):
    def h(p, it):
        style = p.choose(2)
        i, o = ASKED[p.choose(len(ASKED))], ASKED[p.choose(len(ASKED))]
        opt = p.choose(2)
        n = p.choose(3)
        names = ["in", "out"][:n]
        argv = []
        for a in ([0, 1, 2, 3], [3, 2, 1, 0])[p.choose(2)]:
            if a == 0 and i is not None:
                argv += option("-i", "--input-format", i, style)
            elif a == 1 and o is not None:
                argv += option("-o", "--output-format", o, style)
            elif a == 2 and opt:
                argv += option("-O", "--optimize", None, style)
            elif a == 3:
                argv += names
        log = []
        hooks(it, log)
        finish(p, it, _converter._main, (), argv, log, i in UNKNOWN or o in UNKNOWN)
        i, o, names = i or "binary", o or "binary", names + ["-"] * (2 - n)
        p.prove("converter: the input is read, to its end, once", len(log) >= 1 and log[0][0] == "read" and [e[0] for e in log].count("read") == 1)
        if len(log) != 1:
            raise Unsupported("the converter does something else too")
        r = log[0][1]
        p.prove("converter: by the reader of the format asked for", r.cls is {"binary": _parser.Binary, "hex": _parser.Hex, "code": _parser.Code}[i])
        p.prove("converter: from the file asked for", known(r.args[0], "r", names[0], i != "binary"))
        w = r.args[1]
        p.prove("converter: optimized when asked to, and only then", isinstance(w, Part) and (w.what == "optimizer") == bool(opt))
        w = w.args[0] if w.what == "optimizer" else w
        p.prove("converter: by the writer of the format asked for", w.what == "writer" and w.cls is {"binary": _formatter.Binary, "hex": _formatter.Hex, "code": _formatter.Code}[o])
        p.prove("converter: to the file asked for", w.what == "writer" and known(w.args[0], "w", names[1], o != "binary"))
    run_harness(report, "converter", h)


def unit_compiler(report):
    def h(p, it):
        style = p.choose(2)
        o = ASKED[p.choose(len(ASKED))]
        raw = p.choose(2)
        n = p.choose(2)
        names = ["out"][:n]
        argv = []
        for a in ([0, 1, 2], [2, 1, 0])[p.choose(2)]:
            if a == 0 and o is not None:
                argv += option("-o", "--output-format", o, style)
            elif a == 1 and raw:
                argv += option("-N", "--no-optimize", None, style)
            elif a == 2:
                argv += names
        log = []
        hooks(it, log)
        desc = Part(log, "description", None)
        finish(p, it, _compiler.compile_main, (desc,), argv, log, o in UNKNOWN)
        o = o or "binary"
        p.prove("compiler: the description is compiled, once", len(log) >= 1 and log[0][0] == "accept" and log[0][1] is desc and len(log[0]) == 3
                and [e[0] for e in log].count("accept") == 1)
        v = log[0][2]
        p.prove("compiler: by the streamer", isinstance(v, Part) and v.what == "streamer" and v.cls is _streamer.Streamer)
        w = v.args[0]
        p.prove("compiler: what is held back is written in the end", [e[0] for e in log].count("close") == 1 and log[-1][0] == "close" and log[-1][1] is w)
        if len(log) != 2:
            raise Unsupported("the compiler does something else too")
        p.prove("compiler: optimized unless asked not to", isinstance(w, Part) and (w.what == "optimizer") == (not raw))
        w = w.args[0] if w.what == "optimizer" else w
        p.prove("compiler: by the writer of the format asked for", w.what == "writer" and w.cls is {"binary": _formatter.Binary, "hex": _formatter.Hex, "code": _formatter.Code}[o])
        p.prove("compiler: to the file asked for", w.what == "writer" and known(w.args[0], "w", (names + ["-"])[0], o != "binary"))
    run_harness(report, "compiler", h)


def unit_decompiler(report):
    def h(p, it):
        style = p.choose(2)
        i = ASKED[p.choose(len(ASKED))]
        n = p.choose(3)
        names = ["in", "out"][:n]
        argv = []
        for a in ([0, 1], [1, 0])[p.choose(2)]:
            if a == 0 and i is not None:
                argv += option("-i", "--input-format", i, style)
            elif a == 1:
                argv += names
        log = []
        hooks(it, log)
        finish(p, it, _extractor.main, (), argv, log, i in UNKNOWN)
        i, names = i or "binary", names + ["-"] * (2 - n)
        p.prove("decompiler: the input is read, to its end, once", len(log) >= 1 and log[0][0] == "read" and [e[0] for e in log].count("read") == 1)
        r = log[0][1]
        p.prove("decompiler: by the reader of the format asked for", r.cls is {"binary": _parser.Binary, "hex": _parser.Hex, "code": _parser.Code}[i])
        p.prove("decompiler: from the file asked for", known(r.args[0], "r", names[0], i != "binary"))
        x = r.args[1]
        p.prove("decompiler: into an extractor", type(x) is _extractor.Extractor)
        p.prove("decompiler: then the description is written, once", len(log) == 2 and log[1][0] == "accept" and log[1][1] is x.root and len(log[1]) == 3)
        v = log[1][2]
        p.prove("decompiler: as source text, to the file asked for", isinstance(v, Part) and v.what == "dumper" and v.cls is _dumper.Dumper and len(v.args) == 1
                and known(v.args[0], "w", names[1], True))
    run_harness(report, "decompiler", h)


# which contracts run the functions of a module
RUN_BY = {"stream/parser": ("c02", "c03"), "stream/formatter": ("c02", "c03"), "stream/optimizer": ("c04",), "stream/item": ("c01",), "usage/": ("c10",), "util/": ("c11",),
          "descriptor/streamer": ("c05",), "descriptor/descriptor": ("c05", "c13"), "descriptor/extractor": ("c07", "c08"), "descriptor/dumper": ("c09",)}


def outputs(tree):
    """Places where a module can write to standard output by itself: print and stdout, but for what is said while
    refusing (an exception handler that raises again) and for default arguments."""
    found, skip = [], set()
    for n in ast.walk(tree):
        if isinstance(n, ast.ExceptHandler) and n.body and isinstance(n.body[-1], ast.Raise) and n.body[-1].exc is None \
                and not any(isinstance(x, (ast.Return, ast.Continue, ast.Break)) for b in n.body for x in ast.walk(b)):
            skip |= {id(x) for b in n.body for x in ast.walk(b)}
        if isinstance(n, (ast.FunctionDef, ast.Lambda)):
            skip |= {id(x) for d in n.args.defaults + [k for k in n.args.kw_defaults if k] for x in ast.walk(d)}
    for n in ast.walk(tree):
        if id(n) in skip:
            continue
        name = n.id if isinstance(n, ast.Name) else n.attr if isinstance(n, ast.Attribute) else n.name if isinstance(n, ast.alias) else None
        if name in ("print", "stdout", "__stdout__", "builtins", "__builtins__", "system", "popen", "subprocess", "exec", "eval", "pprint"):
            found.append((name, n.lineno))
    return found


def unit_parts(report):
    """What the tools are made of writes nothing to standard output by itself."""
    from .. import lib
    root = os.path.join(conc.REPO, "hrdc")
    suspects = {}
    mods = 0
    for d, _, fs in sorted(os.walk(root)):
        for f in sorted(fs):
            if f.endswith(".py"):
                rel = os.path.relpath(os.path.join(d, f), root)
                mods += 1
                tree = ast.parse(open(os.path.join(d, f), encoding="utf-8").read())
                main = {id(x) for n in tree.body if isinstance(n, ast.FunctionDef) and rel in ("converter.py", "descriptor/compiler.py", "descriptor/extractor.py")
                        and n.name in ("_main", "main", "compile_main") for x in ast.walk(n)}
                for n in ast.walk(tree):
                    if id(n) in main and isinstance(n, ast.Name) and n.id == "print":
                        n.id = "checked elsewhere"      # (the tools' own functions: units above)
                l = outputs(tree)
                if l:
                    suspects[rel] = l
                else:
                    report.add("%s: writes nothing to standard output by itself" % rel, "proved", "effects", 0.0)
    if not mods:
        report.add("parts: found", "failed", "evaluation", 0.0)
    for rel, l in suspects.items():
        by = next((v for k, v in RUN_BY.items() if rel.startswith(k)), None)
        if by is None:
            raise Unsupported("%s may write to standard output: %s" % (rel, l[:3]))
        lib.PRINTS = []
        try:
            for m in by:
                mod = importlib.import_module("vf.props." + m)
                for name, fn in mod.UNITS:
                    fn(Report())
                    if lib.PRINTS:
                        report.add("%s: writes nothing to standard output by itself" % rel, "failed", "z3", 0.0, lib.PRINTS[0], "line %s, %s %s" % (l, m, name))
                        return
            report.add("%s: writes nothing to standard output by itself" % rel, "proved", "z3", 0.0)
        finally:
            lib.PRINTS = None


UNITS = [("parts", unit_parts), ("converter", unit_converter), ("compiler", unit_compiler), ("decompiler", unit_decompiler)]


# --------------------------------------------------------------- run time
@contextlib.contextmanager
def scratch():
    d = tempfile.mkdtemp(prefix="vf_c14_")
    try:
        yield d
    finally:
        shutil.rmtree(d)


def run(main, args, argv, data, d):
    """Run a tool in this process: bytes on its standard output"""
    old = sys.argv, sys.stdin, sys.stdout, sys.stderr
    out = io.BytesIO()
    sys.argv = ["tool"] + argv
    sys.stdin, sys.stdout, sys.stderr = io.TextIOWrapper(io.BytesIO(data)), io.TextIOWrapper(out), io.StringIO()
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            try:
                main(*args)
                r = ("ok",)
            except SystemExit as e:
                r = ("ok",) if e.code in (None, 0) else ("exit", e.code)
            except Exception as e:      # noqa: BLE001
                r = ("raise", type(e).__name__)
        if not sys.stdout.closed:
            sys.stdout.flush()
            got = out.getvalue()
            sys.stdout.detach()
        else:
            got = None
    finally:
        sys.argv, sys.stdin, sys.stdout, sys.stderr = old
    gc.collect(0)
    return r, got


def encode(fmt, data):
    if fmt == "hex":
        return " ".join("%02x" % b for b in data).encode() + b"\n"
    if fmt == "code":
        return b"".join(b"0x%02x,%s" % (b, b" // x\n" if i % 5 == 4 else b" ") for i, b in enumerate(data))
    return data


def decode(fmt, out):
    if fmt == "binary":
        return out
    try:
        return {"hex": lex_hex, "code": lex_code}[fmt](out.decode("ascii"))
    except UnicodeDecodeError:
        return None


class Keep:
    def __init__(self):
        self.b = b""

    def append(self, i):
        self.b += i.bytes()

    def close(self):
        pass


def library(ts, root, opt):
    """What the parts, put together, write in binary"""
    k = Keep()
    s = _opt.Optimizer.new(k) if opt else k
    if root is not None:
        root.accept(_streamer.Streamer(s))
        s.close()
    else:
        _parser.Parser.get("binary")(io.BytesIO(b"".join(conc.spec_bytes(*t) for t in ts)), s).read()
    return k.b


def same_meaning(a, b):
    try:
        return hid.events(a) == hid.events(b)
    except hid.TooBig:
        return True


def check(inp):
    ts = [tuple(t) for t in inp["items"]]
    data = b"".join(conc.spec_bytes(*t) for t in ts)
    tool, i, o, opt, n, style = inp["tool"], inp.get("in"), inp.get("out"), inp.get("opt"), inp.get("files", 0), inp.get("style", 0)
    fi, fo = i or "binary", o or "binary"
    with scratch() as d:
        fin, fout = os.path.join(d, "in"), os.path.join(d, "out")
        open(fin, "wb").write(encode(fi, data))
        argv, root = [], None
        if tool != "compile":
            names = [fin, fout][:n]
            if i is not None:
                argv += option("-i", "--input-format", i, style)
        else:
            names = [fout][:n and 1]
        if tool != "decompile":
            if o is not None:
                argv += option("-o", "--output-format", o, style)
            if opt:
                argv += option("-O", "--optimize", None, style) if tool == "convert" else option("-N", "--no-optimize", None, style)
        argv = argv + names if inp.get("order") else names + argv
        if tool == "convert":
            want = attempt_(lambda: library(ts, None, opt))
            main, args = _converter._main, ()
        elif tool == "compile":
            r = attempt_(lambda: dec.decompile(ts))
            if r is None:
                return "skip"
            root = r
            want = attempt_(lambda: library(None, root, not opt))
            main, args = _compiler.compile_main, (root,)
        else:
            want = attempt_(lambda: dec.dump(dec.decompile(ts)).encode())
            main, args = _extractor.main, ()
        if want is None:
            return "skip"
        given = encode(fi, data)
        if inp.get("process") and tool != "compile":
            r = subprocess.run([sys.executable, "-m", {"convert": "hrdc.converter", "decompile": "hrdc.descriptor.extractor"}[tool]] + argv, input=given, capture_output=True,
                               cwd=d, env=dict(os.environ, PYTHONPATH=conc.REPO, PYTHONDONTWRITEBYTECODE="1"), timeout=60)
            r, got = (("ok",) if r.returncode == 0 else ("exit", r.stderr[-300:])), r.stdout
        elif inp.get("process"):
            open(os.path.join(d, "m.py"), "w").write(dec.dump(root))
            r = subprocess.run([sys.executable, "m.py"] + argv, capture_output=True, cwd=d, env=dict(os.environ, PYTHONPATH=conc.REPO, PYTHONDONTWRITEBYTECODE="1"), timeout=60)
            r, got = (("ok",) if r.returncode == 0 else ("exit", r.stderr[-300:])), r.stdout
        else:
            r, got = run(main, args, argv, given, d)
        if (i in UNKNOWN and tool != "compile") or (o in UNKNOWN and tool != "decompile"):
            if r[0] == "ok":
                return "%s %s: an unknown format is taken for another" % (tool, argv)
            return None
        if r[0] != "ok":
            return "%s %s: %s" % (tool, argv, r)
        if (n == 2 and tool != "compile") or (n and tool == "compile"):
            if got:
                return "%s %s: %r on standard output" % (tool, argv, got[:200])
            got = open(fout, "rb").read() if os.path.exists(fout) else None
        if got is None:
            return "%s %s: no output" % (tool, argv)
        if tool == "decompile":
            return None if got == want else "%s %s: %r instead of %r" % (tool, argv, got, want)
        b = decode(fo, got)
        if b is None:
            return "%s %s: not %s text: %r" % (tool, argv, fo, got[:300])
        if b != want:
            return "%s %s: %s instead of %s" % (tool, argv, b.hex(), want.hex())
        if tool == "convert":
            back = conc.spec_parse(b)
            if back is None or not (same_meaning(back, ts) if opt else back == conc.spec_parse(data)):
                return "%s %s: %s does not tell what %s tells" % (tool, argv, b.hex(), data.hex())
        else:
            back = conc.spec_parse(b)
            if back is None or not same_meaning(back, dec.compile_(root)):
                return "%s %s: %s does not tell what is described" % (tool, argv, b.hex())
    return None


def attempt_(f):
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            return f()
    except Exception:       # noqa: BLE001 - other properties' matter
        return None


def gen(r, hints):
    items = [list(t) for t in dec.gen(r, hints)["items"]]
    for i in range(len(items) - 1, -1, -1):
        if items[i][0] == 0 and items[i][1] in (8, 9, 11) and r.random() < .08:
            k = r.choice([1, 4, 8])         # a range, of any shape
            a, b = r.randrange(1, 8), r.randrange(1, 8)
            items[i:i] = [[2, k, a], [2, k + 1, b]]
    return {"tool": r.choice(["convert", "convert", "compile", "decompile"]), "items": items, "in": r.choice(ASKED[:4] * 5 + ASKED),
            "out": r.choice(ASKED[:4] * 5 + ASKED), "opt": r.random() < .5, "files": r.randrange(3), "style": r.randrange(2), "order": r.random() < .5}


def fixed(hints):
    base = [[2, 0, 65538], [0, 10, 1], [1, 1, 0], [1, 2, 1], [1, 7, 1], [1, 9, 3], [2, 1, 589825], [2, 2, 589827], [0, 8, 2], [1, 9, 1], [1, 7, 5], [0, 8, 3],
            [1, 1, 0], [1, 2, 1], [1, 7, 1], [1, 9, 1], [2, 0, 65584], [0, 8, 2], [2, 0, 65585], [0, 8, 2], [0, 12, 0]]
    k = 0
    for tool in ("convert", "compile", "decompile"):
        for i in ASKED if tool != "compile" else (None,):
            for o in ASKED if tool != "decompile" else (None,):
                for opt in (0, 1) if tool != "decompile" else (0,):
                    for n in (0, 1, 2):
                        k += 1
                        inp = {"tool": tool, "items": base, "in": i, "out": o, "opt": opt, "files": n, "style": k % 2, "order": k % 3}
                        yield inp
                        if k % 9 == 0:
                            yield dict(inp, process=1)


def smaller(inp):
    for c in dec.smaller({"items": inp["items"]}):
        yield dict(inp, items=c["items"])
