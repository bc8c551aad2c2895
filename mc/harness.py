"""Exploration harness: enumerates the cases of a check, executes each one against
the real package in /repo in forked workers, and reports.

A check module (mc/checks/cNN.py) provides

  ID, TITLE, BOUNDS (dict tier -> text), ASSUMPTIONS (list of str)
  cases(tier)   -> ordered list of cases (simplest first; JSON-able)
  run(case, api)-> None; reports through `api` (states, transitions, fail(...))
  setup(tier)   -> optional, executed once before forking
  TIMEOUT       -> optional, seconds after which one case counts as non-terminating

Every case is executed on the real code; nothing is sampled.
"""

import contextlib
import importlib
import io
import json
import os
import pickle
import re
import select
import shutil
import signal
import struct
import sys
import tempfile
import time
import traceback
import warnings

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = "/repo"
PKG = os.path.join(REPO, "pydsge") + os.sep
SCRATCH = os.environ.get("MC_SCRATCH") or tempfile.mkdtemp(prefix="pydsge_mc.")
NWORK = int(os.environ.get("MC_WORKERS", "8"))


class HarnessError(Exception):
    pass


class Fail(Exception):
    """property violated"""

    def __init__(self, sig, msg, detail=None):
        super().__init__(msg)
        self.sig, self.msg, self.detail = sig, msg, detail


class Api:
    """what a case reports to"""

    def __init__(self, tier, scratch):
        self.tier, self.scratch = tier, scratch
        self.states = self.transitions = self.traces = self.skipped = 0
        self.outcomes = set()
        self.fails = []
        self.sample = None

    def fail(self, sig, msg, detail=None):
        self.fails.append({"sig": sig, "msg": msg, "detail": detail})

    def ok(self, cond, sig, msg, detail=None):
        if not cond:
            raise Fail(sig, msg() if callable(msg) else msg, detail)

    def outcome(self, *o):
        if len(self.outcomes) < 5000:
            self.outcomes.add(repr(o))

    def dir(self):
        return tempfile.mkdtemp(dir=self.scratch)


def in_pydsge(tb):
    return any(f.filename.startswith(PKG) for f in traceback.extract_tb(tb))


def where(tb):
    fr = [f for f in traceback.extract_tb(tb) if f.filename.startswith(PKG)]
    return "%s:%s" % (os.path.basename(fr[-1].filename), fr[-1].name) if fr else "?"


def execute(mod, case, tier, scratch):
    api = Api(tier, scratch)
    err = None
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            mod.run(case, api)
    except Fail as f:
        api.fail(f.sig, f.msg, f.detail)
    except Exception as e:
        tb = sys.exc_info()[2]
        if in_pydsge(tb):
            api.fail(
                "exception",
                "unexpected %s in %s: %s" % (type(e).__name__, where(tb), str(e)[:300]),
                traceback.format_exc()[-3000:],
            )
        elif isinstance(e, (OSError, MemoryError, HarnessError)):
            err = traceback.format_exc()
        else:
            # what the package returned could not even be interpreted
            api.fail("malformed result", "%s: %s" % (type(e).__name__, str(e)[:300]), traceback.format_exc()[-3000:])
    return {
        "states": api.states,
        "transitions": api.transitions,
        "traces": api.traces,
        "skipped": api.skipped,
        "outcomes": api.outcomes,
        "fails": api.fails,
        "sample": api.sample,
        "error": err,
    }


# ------------------------------------------------------------------- workers
def _read(fd, n):
    b = b""
    while len(b) < n:
        c = os.read(fd, n - len(b))
        if not c:
            raise EOFError
        b += c
    return b


def _recv(fd):
    (n,) = struct.unpack("<Q", _read(fd, 8))
    return pickle.loads(_read(fd, n))


def _send(fd, o):
    b = pickle.dumps(o)
    b = struct.pack("<Q", len(b)) + b
    while b:
        b = b[os.write(fd, b):]


class Worker:
    def __init__(self, mod, cases, tier, no):
        r1, w1 = os.pipe()
        r2, w2 = os.pipe()
        sys.stdout.flush()
        sys.stderr.flush()
        pid = os.fork()
        if pid == 0:
            os.setpgid(0, 0)
            os.close(w1)
            os.close(r2)
            dn = os.open(os.devnull, os.O_WRONLY)
            os.dup2(dn, 1)
            os.dup2(dn, 2)
            sys.stdout = open(os.devnull, "w")
            sys.stderr = open(os.devnull, "w")
            scratch = tempfile.mkdtemp(dir=SCRATCH, prefix="w%d_" % no)
            os.chdir(scratch)
            code = 0
            try:
                while True:
                    i = _recv(r1)
                    if i is None:
                        break
                    _send(w2, execute(mod, cases[i], tier, scratch))
            except EOFError:
                pass
            except BaseException:
                code = 70
            os._exit(code)
        os.close(r1)
        os.close(w2)
        self.pid, self.w, self.r = pid, w1, r2
        self.case, self.t0 = None, None

    def give(self, i):
        self.case, self.t0 = i, time.time()
        _send(self.w, i)

    def stop(self, kill=False):
        try:
            if kill:
                os.killpg(self.pid, signal.SIGKILL)
            else:
                _send(self.w, None)
        except OSError:
            pass
        try:
            _, st = os.waitpid(self.pid, 0)
        except ChildProcessError:
            st = 0
        try:
            os.killpg(self.pid, signal.SIGKILL)
        except OSError:
            pass
        for fd in (self.w, self.r):
            try:
                os.close(fd)
            except OSError:
                pass
        return st


def explore(mod, cases, tier, is_known, stop_early=True):
    """execute all cases; returns list of (index, result) in completion order"""
    timeout = getattr(mod, "TIMEOUT", 240)
    n = min(NWORK, max(1, len(cases)))
    order = list(range(len(cases)))[::-1]
    results = {}
    found = None
    seq = 0
    workers = []
    for _ in range(n):
        workers.append(Worker(mod, cases, tier, seq))
        seq += 1
    try:
        for w in workers:
            if order:
                w.give(order.pop())
        while any(w.case is not None for w in workers):
            busy = {w.r: w for w in workers if w.case is not None}
            rd, _, _ = select.select(list(busy), [], [], 1.0)
            now = time.time()
            for fd in rd:
                w = busy[fd]
                try:
                    res = _recv(fd)
                except EOFError:
                    st = w.stop(True)
                    res = execute_none()
                    res["fails"] = [{"sig": "crash", "msg": "process died (wait status %s)" % st, "detail": None}]
                    workers[workers.index(w)] = nw = Worker(mod, cases, tier, seq)
                    seq += 1
                    results[w.case] = res
                    w = nw
                else:
                    results[w.case] = res
                if res["fails"] and not all(is_known(f) for f in res["fails"]) or res["error"]:
                    found = True
                w.case = None
                if order and not (found and stop_early):
                    w.give(order.pop())
            for w in list(busy.values()):
                if w.case is not None and w in workers and now - w.t0 > timeout:
                    i = w.case
                    w.stop(True)
                    res = execute_none()
                    res["fails"] = [{"sig": "nontermination", "msg": "no result within %ss" % timeout, "detail": None}]
                    results[i] = res
                    found = True
                    nw = Worker(mod, cases, tier, seq)
                    seq += 1
                    workers[workers.index(w)] = nw
                    w.case = None
                    if order and not (found and stop_early):
                        nw.give(order.pop())
    finally:
        for w in workers:
            w.stop(w.case is not None)
    return results


def execute_none():
    return {"states": 0, "transitions": 0, "traces": 0, "skipped": 0, "outcomes": set(), "fails": [], "sample": None, "error": None}


# ------------------------------------------------------------ known findings
def known_findings(pid):
    out = []
    fn = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
    if os.path.exists(fn):
        for line in open(fn):
            m = re.match(r"known: property=(\S+) sig=(\S+) (.*)", line.strip())
            if m and m.group(1) == pid:
                out.append((m.group(2), m.group(3)))
    return out


def main(argv):
    t0 = time.time()
    pid = argv[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    replay = None
    if "--tier" in argv:
        tier = argv[argv.index("--tier") + 1]
    if "--replay" in argv:
        replay = argv[argv.index("--replay") + 1]
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    known = known_findings(pid)
    known_sigs = {s for s, _ in known}

    def is_known(f):
        return f["sig"] in known_sigs

    sys.path.insert(0, REPO)
    sys.path.insert(0, HERE)
    sys.path.insert(0, os.path.join(HERE, "checks"))
    mod = importlib.import_module("checks." + pid.lower())

    boot_fail = None
    cases = []
    try:
        with contextlib.redirect_stdout(io.StringIO()), warnings.catch_warnings():
            warnings.simplefilter("ignore")
            import pranges

            with pranges.recording():
                import pydsge

            if os.path.dirname(os.path.abspath(pydsge.__file__)) + os.sep != PKG:
                raise HarnessError("pydsge imported from " + pydsge.__file__)
            cases = mod.cases(tier)
            if hasattr(mod, "setup"):
                mod.setup(tier)
    except HarnessError:
        raise
    except Exception as e:
        if not in_pydsge(sys.exc_info()[2]):
            raise
        boot_fail = {
            "sig": "exception",
            "msg": "unexpected %s while importing / preparing: %s" % (type(e).__name__, str(e)[:300]),
            "detail": traceback.format_exc()[-3000:],
        }

    if replay:
        case = json.load(open(replay))["case"]
        cases = [case]
    # canonical JSON form, so that a replayed case is the same case
    cases = json.loads(json.dumps(cases))

    results = {}
    if boot_fail:
        r = execute_none()
        r["fails"] = [boot_fail]
        cases = cases or [None]
        results = {0: r}
    else:
        results = explore(mod, cases, tier, is_known)

    errors = [(i, r["error"]) for i, r in sorted(results.items()) if r["error"]]
    fails = [(i, f) for i, r in sorted(results.items()) for f in r["fails"]]
    new = [(i, f) for i, f in fails if not is_known(f)]
    outcomes = set()
    for r in results.values():
        outcomes |= r["outcomes"]
    samples = [{"case": cases[i], "note": r["sample"]} for i, r in sorted(results.items()) if r["sample"] is not None][:3]
    samples += [{"case": cases[i]} for i in sorted(results)[:: max(1, len(results) // 3)][:3]]
    done = len(results) == len(cases)
    evidence = {
        "property": pid,
        "tier": tier,
        "seed": seed,
        "level": "model_checking",
        "coverage": {
            "states": sum(r["states"] for r in results.values()),
            "transitions": sum(r["transitions"] for r in results.values()),
            "traces_validated_against_impl": sum(r["traces"] for r in results.values()) or len(results),
            "cases_enumerated": len(cases),
            "cases_executed": len(results),
            "comparisons_skipped_as_ties": sum(r["skipped"] for r in results.values()),
            "distinct_outcomes": len(outcomes),
            "outcome_examples": sorted(outcomes, key=lambda o: (len(o), o))[:60],
            "samples": samples,
            "exhaustive": bool(done and not new and not errors),
            "bounds": getattr(mod, "BOUNDS", {}).get(tier, ""),
            "explanation": getattr(mod, "HOW", ""),
        },
        "assumptions": getattr(mod, "ASSUMPTIONS", []),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(new),
    }
    if not replay:
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
            json.dump(evidence, f, indent=1, default=str)
            f.write("\n")
    for s, what in known:
        hit = any(f["sig"] == s for _, f in fails)
        if hit:
            print("KNOWN-FINDING: property=%s %s" % (pid, what))
    c = evidence["coverage"]
    print(
        "%s %s: %d/%d cases, %d states, %d transitions, %d traces, %d distinct outcomes, %d ties skipped, %.1fs"
        % (pid, tier, len(results), len(cases), c["states"], c["transitions"], c["traces_validated_against_impl"], len(outcomes), c["comparisons_skipped_as_ties"], time.time() - t0)
    )
    if new:
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        i, f = new[0]
        path = os.path.join(VERIF, "replays", "%s.json" % pid)
        with open(path, "w") as fh:
            json.dump({"property": pid, "case": cases[i], "sig": f["sig"], "msg": f["msg"], "detail": f["detail"], "replay": "cd /verif && %s./check %s --replay %s" % ("MC_DISABLE_JIT=0 " if os.environ.get("NUMBA_DISABLE_JIT") == "0" else "", pid, path)}, fh, indent=1, default=str)
        for j, g in new[:5]:
            print("  case %d: [%s] %s" % (j, g["sig"], g["msg"]))
        print("  case: %s" % json.dumps(cases[i])[:1500])
        print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    if errors:
        print("HARNESS ERROR in case %d:\n%s" % errors[0])
        print("  case: %s" % json.dumps(cases[errors[0][0]])[:1500])
        return 2
    return 0
