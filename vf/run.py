"""Runs one property's check: obligations, then the run-time contract check, then the verdict."""
import contextlib
import importlib
import io
import json
import multiprocessing as mp
import os
import random
import signal
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.environ.get("VF_EVID") or os.path.join(VERIF, "evidence")
NPROC = min(8, os.cpu_count() or 1)
CASE_LIMIT_S = 40       # of processor time: not a matter of how busy the machine is


class Hang(BaseException):
    """Not an Exception, so that no handler of the code under test takes it for a failure."""


_hung = False


def _alarm(*a):
    global _hung
    _hung = True
    raise Hang


def safe_check(mod, inp):
    """None if the contract holds on inp, else a message."""
    global _hung
    _hung = False
    signal.signal(signal.SIGVTALRM, _alarm)
    signal.setitimer(signal.ITIMER_VIRTUAL, CASE_LIMIT_S, 2)        # again, if something swallows it
    msg = None
    try:
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                msg = mod.check(inp)
        except RecursionError:
            msg = "unexpected RecursionError"
        except Exception as e:      # noqa: BLE001
            msg = "unexpected %s: %s\n%s" % (type(e).__name__, str(e)[:300], "".join(traceback.format_exc().splitlines(True)[-6:]))
        finally:
            signal.setitimer(signal.ITIMER_VIRTUAL, 0)
    except Hang:
        pass
    if _hung:       # whatever came of the rest of that case says nothing
        return "no result within %d s" % CASE_LIMIT_S
    return msg


# ------------------------------------------------------------------ workers
def _unit(args):
    prop, uname = args
    from . import sym, interp
    mod = importlib.import_module("vf.props." + prop.lower())
    rep = sym.Report()
    t = time.time()
    for k in sym.STATS:
        sym.STATS[k] = 0
    interp._seen_functions.clear()
    err = None
    fn = dict(mod.UNITS)[uname]
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            fn(rep)
    except sym.Unsupported as e:
        err = "unsupported: %s" % e
        if os.environ.get("VF_DEBUG"):
            traceback.print_exc()
    except sym.PathEnd:
        pass
    except Exception as e:      # noqa: BLE001
        err = "engine: %s: %s %s" % (type(e).__name__, str(e)[:300], traceback.format_exc().splitlines()[-3:])
        if os.environ.get("VF_DEBUG"):
            traceback.print_exc()
    rep.ob = {"%s: %s" % (uname, k): o for k, o in rep.ob.items()}
    for o in rep.ob.values():
        o["detail"] = str(o["detail"])[:600] if o["detail"] is not None else None
    return uname, rep.ob, err, dict(sym.STATS), dict(interp._seen_functions), time.time() - t


def _concrete(args):
    prop, seed, chunk, budget_s, ncases, hints, fixed = args
    mod = importlib.import_module("vf.props." + prop.lower())
    rng = random.Random("%s/%s/%s" % (prop, seed, chunk))
    t0 = time.time()
    n, seen, samples, fail = 0, set(), [], None

    def one(inp):
        nonlocal n, fail
        n += 1
        key = json.dumps(inp, sort_keys=True, default=str)
        h = hash(key)
        if h not in seen:
            seen.add(h)
            if len(samples) < 2:
                samples.append(inp)
        msg = safe_check(mod, inp)
        if msg is not None:
            if msg == "skip":
                seen.discard(h)
                return
            fail = (inp, msg)
    if fixed:
        for k, inp in enumerate(mod.fixed(hints)):
            if k % NPROC != chunk:
                continue
            one(inp)
            if fail:
                break
            if time.time() - t0 > budget_s * 2:
                break
    k = 0
    while fail is None and k < ncases and time.time() - t0 < budget_s:
        one(mod.gen(rng, hints))
        k += 1
    if fail is not None:
        fail = shrink(mod, *fail)
    return n, len(seen), samples, fail


def shrink(mod, inp, msg):
    """Greedy: drop list elements while the same check still fails."""
    if not hasattr(mod, "smaller"):
        return inp, msg
    t0 = time.time()
    again = True
    while again and time.time() - t0 < 20:
        again = False
        for cand in mod.smaller(inp):
            m = safe_check(mod, cand)
            if m is not None and m != "skip":
                inp, msg, again = cand, m, True
                break
            if time.time() - t0 > 20:
                break
    return inp, msg


def pool_map(fn, jobs, timeout):
    ctx = mp.get_context("fork")
    out, dead = [], []
    with ctx.Pool(NPROC, maxtasksperchild=4) as pool:
        rs = [(j, pool.apply_async(fn, (j,))) for j in jobs]
        end = time.time() + timeout
        for j, r in rs:
            try:
                out.append(r.get(max(0.5, end - time.time())))
            except mp.TimeoutError:
                dead.append(j)
        pool.terminate()
    return out, dead


def known_findings(prop):
    out = []
    p = os.path.join(VERIF, "known_findings.jsonl")
    if os.path.exists(p):
        for line in open(p, encoding="utf-8"):
            line = line.strip()
            if line:
                k = json.loads(line)
                if k.get("property") == prop and k.get("status") == "known":
                    out.append(k)
    return out


def main(argv):
    prop = argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in argv:
        tier = "thorough"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    os.makedirs(EVID, exist_ok=True)
    mod = importlib.import_module("vf.props." + prop.lower())

    if "--replay" in argv:
        data = json.load(open(argv[argv.index("--replay") + 1]))
        if data.get("input") is None:
            print("no concrete input in this replay file; failed obligation:", data.get("obligation"))
            return 1
        msg = safe_check(mod, data["input"])
        print("replayed:", msg or "the contract holds")
        return 1 if msg not in (None, "skip") else 0

    t0 = time.time()
    quick = tier == "quick"
    # 1. obligations
    names = [n for n, f in mod.UNITS]
    only = [a[7:] for a in argv if a.startswith("--unit=")]
    if only:
        names = [n for n in names if any(o in n for o in only)]
    res, dead = pool_map(_unit, [(prop, n) for n in names], 420 if quick else 1500)
    from . import sym
    rep = sym.Report()
    undecided, stats, funcs, unit_times = [], {}, {}, {}
    for uname, ob, err, st, fs, dt in res:
        rep.merge(ob)
        unit_times[uname] = round(dt, 2)
        if err:
            undecided.append({"unit": uname, "why": err})
        elif not ob:
            undecided.append({"unit": uname, "why": "no obligation generated"})
        for k, v in st.items():
            stats[k] = stats.get(k, 0) + v
        for k, v in fs.items():
            funcs[k] = funcs.get(k, 0) + v
    for d in dead:
        undecided.append({"unit": d[1], "why": "time limit"})
    failed = {n: o for n, o in rep.ob.items() if o["status"] == "failed"}
    soft = {n: o for n, o in rep.ob.items() if o["status"] in ("unknown", "exception")}
    for n, o in soft.items():
        undecided.append({"obligation": n, "why": o["status"], "detail": o["detail"]})
    if "-v" in argv or "-vv" in argv:
        for n, o in sorted(rep.ob.items()):
            if o["status"] == "proved" and "-vv" not in argv:
                continue
            print("  %-8s %5d  %s %s" % (o["status"], o["instances"], n, o["detail"] or "" if o["status"] != "proved" else ""))
            if o["status"] == "failed":
                print("      model:", o["model"])
        print("slow units:", {k: v for k, v in unit_times.items() if v > 2})
        for u in undecided[:40]:
            print("UNDECIDED", str(u)[:400])
    if "--prove-only" in argv:
        print("%d obligations, %d failed, %d undecided, %.1f s" % (len(rep.ob), len(failed), len(undecided), time.time() - t0))
        return 1 if failed else 0

    # 2. run-time contract check on the real code
    hints = []
    for o in list(failed.values()) + list(soft.values()):
        for k, v in (o["model"] or {}).items():
            try:
                hints.append((k, int(v)))
            except (TypeError, ValueError):
                if getattr(mod, "TEXT_HINTS", False):
                    hints.append((k, v))
    hints = hints[:200]
    trouble = bool(failed or undecided)
    budget = (getattr(mod, "QUICK_S", 12) * (4 if trouble else 1)) if quick else getattr(mod, "THOROUGH_S", 180)
    ncases = getattr(mod, "QUICK_N", 4000) * (6 if trouble else 1) if quick else 10 ** 9
    jobs = [(prop, seed, c, budget, ncases, hints, True) for c in range(NPROC)]
    cres, cdead = pool_map(_concrete, jobs, budget * 3 + 120)
    evals = sum(r[0] for r in cres)
    distinct = sum(r[1] for r in cres)
    samples = [s for r in cres for s in r[2]][:4]
    fails = [r[3] for r in cres if r[3]]

    # 3. verdict
    violations = []
    replay = os.path.join(EVID, "replay-%s.json" % prop)
    out = []
    if fails:
        fails.sort(key=lambda f: len(json.dumps(f[0], default=str)))
        inp, msg = fails[0]
        json.dump({"property": prop, "input": inp, "what": msg, "obligations": sorted(failed)[:20],
                   "replay_cmd": "python3-vt check.py %s --replay %s" % (prop, replay)},
                  open(replay, "w"), indent=1, default=str)
        violations.append({"input": inp, "what": msg})
        out.append("VIOLATION property=%s replay=%s" % (prop, replay))
    elif failed:
        n, o = sorted(failed.items())[0]
        json.dump({"property": prop, "input": None, "obligation": n, "failed": {
            k: {"model": v["model"], "detail": v["detail"], "backends": v["backends"]} for k, v in failed.items()}},
            open(replay, "w"), indent=1, default=str)
        violations.append({"obligation": n, "model": o["model"], "detail": o["detail"]})
        out.append("VIOLATION property=%s replay=%s no-failing-input-found" % (prop, replay))

    known = []
    for k in known_findings(prop):
        m = safe_check_known(mod, k["input"])
        if m is not None:
            known.append(k["what"])
            print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))

    nob = len(rep.ob)
    discharged = sum(1 for o in rep.ob.values() if o["status"] == "proved")
    backends = {}
    for o in rep.ob.values():
        for b, c in o["backends"].items():
            backends[b] = backends.get(b, 0) + c
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": mod.LEVEL,
        "coverage": {
            "obligations": nob, "discharged": discharged,
            "obligation_instances": sum(o["instances"] for o in rep.ob.values()),
            "backends": backends,
            "checker_cmd": "python3-vt check.py %s" % prop,
            "trusted_base": mod.TRUSTED,
            "functions_under_contract": sorted(funcs),
            "paths": stats.get("paths", 0), "solver_queries": stats.get("queries", 0),
            "solver_s": round(stats.get("solver_s", 0), 2),
            "undecided": undecided,
            "bounded_standins": ([] if not undecided else
                                 ["units above are covered on this run only by the run-time contract check below (bounded)"])
            + list(getattr(mod, "BOUNDED", [])),
            "evaluations": evals, "distinct_nontrivial": distinct,
            "rule": mod.RULE, "samples": samples,
            "obligation_names": sorted(rep.ob)[:400],
        },
        "assumptions": mod.ASSUMPTIONS,
        "wall_s": round(time.time() - t0, 2),
        "violations": violations,
        "known_findings": known,
    }
    json.dump(ev, open(os.path.join(EVID, prop + ".json"), "w"), indent=1, default=str)
    for line in out:
        print(line)
    for v in violations[:1]:
        print("  " + json.dumps(v, default=str)[:1500])
    # Source the engine cannot read (every unit reported so) leaves the bounded run-time check as
    # the only answer; it is labelled so in the evidence.  Anything else with no obligation is an error.
    unreadable = bool(undecided) and all(str(u.get("why", "")).startswith(("unsupported", "time limit"))
                                         for u in undecided)
    if not violations and nob == 0 and not unreadable:
        print("ERROR: no obligation was generated", undecided[:3])
        return 3
    if not violations and evals == 0:
        print("ERROR: the run-time contract check ran no case")
        return 3
    print("%s: %d obligations, %d discharged, %d undecided, %d run-time cases, %.1f s"
          % (prop, nob, discharged, len(undecided), evals, time.time() - t0))
    return 1 if violations else 0


def safe_check_known(mod, inp):
    f = getattr(mod, "check_known", mod.check)

    class M:
        check = staticmethod(f)
    m = safe_check(M, inp)
    return None if m == "skip" else m
