"""C08: reading a model depends on the files only, and instances are independent"""
import os
import shutil

import numpy as np
import pandas as pd

from common import Fail, fclose, forked, quiet
from refmodel import RefModel
from checks.c01 import build

ID = "C08"
HOW = "the tree of all histories over the alphabet is explored on the real code by forking the process at every node (cache, objects and files are part of the state); after every operation every live model is compared with the reference interpretation of the files at the time it was read plus its own modifications"
ASSUMPTIONS = ["numerical agreement up to 1e-6"]
PRIOR = "estimation:\n  prior:\n    rho: [0.5, 0.01, 0.99, beta, 0.6, 0.1]\n    a: [0.4, 0.01, 3, normal, 0.5, 0.1]\n"


def txt(rho, coef, name="mod"):
    return build(["x", "r", "u"], ["x = 0.3*x(+1) - d*r + %s*u" % coef, "u = rho*u(-1) + e_u"], "r = 1.5*x", ["e_u"], [("a", ".5"), ("rho", rho), ("s1", ".4"), ("x_bar", "-1")], [("o1", "x + d"), ("o2", "r")], parafunc=[("d", "foo(a)")], name=name) + PRIOR


T = {"T0": txt(".6", "1"), "T1": txt(".3", "1"), "T2": txt(".6", "2"), "T3": txt(".6", "1", "other")}
T["T4"] = T["T0"].replace("o1: x + d", "o1: x + 2*d")
FUN = {"F0": "def foo(x):\n    return x**2\n", "F1": "def foo(x):\n    return x + 0.1\n", "F2": "def foo(x):\n    return 0.3*x\n"}
PY = {"F0": lambda x: x ** 2, "F1": lambda x: x + 0.1, "F2": lambda x: 0.3 * x}
# initial files: path -> (text, functions)
INIT = {"d1/a": ["T0", "F0"], "d1/b": ["T0", "F1"], "d2/a": ["T1", "F0"]}
OPS = (
    ["read d1/a", "read d1/b", "read d2/a", "nocache d1/a"]
    + ["text d1/a T1", "text d1/a T2", "text d1/a T3", "funcs d1/a F1", "funcs d1/a F2", "copy d1/a d2/a"]
    + ["mut par", "mut data", "mut fdict", "mut attrs", "mut prior", "mut lists"]
)
SMALL = ["read d1/a", "read d2/a", "nocache d1/a", "text d1/a T1", "text d1/a T3", "funcs d1/a F1", "copy d1/a d2/a", "mut par", "mut fdict", "mut lists"]
DEPTH = {"quick": 4, "thorough": 5}
BOUNDS = {t: "all histories that start with a read, of length %d, over %d operations on three files (reads with and without cache, rewriting the file or its functions file, copying files, mutating the newest model), mutations only directly after a read; and all histories of length 3 over %d operations without that restriction" % (DEPTH[t], len(OPS) if t != "quick" else len(SMALL), len(OPS)) for t in DEPTH}


def nexts(prev, op, full):
    if full == 1:
        return True
    if full == 2 and op not in SMALL:
        return False
    if op.startswith("mut"):
        return prev and (prev[-1].startswith("read") or prev[-1].startswith("nocache"))
    if op.startswith(("text", "funcs", "copy")):
        # rewriting twice the same file is the same as rewriting once
        return prev and not prev[-1].startswith(("text", "funcs", "copy"))
    return True


def cases(tier):
    out = []
    for a in OPS[:4]:
        for b in OPS:
            out.append(dict(prefix=[a, b], depth=3, full=1))
    full = 2 if tier == "quick" else 0
    for a in OPS[:4]:
        for b in OPS:
            if nexts([], a, full) and nexts([a], b, full):
                for c in OPS:
                    if nexts([a, b], c, full):
                        out.append(dict(prefix=[a, b, c], depth=DEPTH[tier], full=full))
    return out


REFS, SOLS = {}, {}


def refmodel(t, fn):
    if (t, fn) not in REFS:
        REFS[t, fn] = RefModel(T[t], {"foo": PY[fn]})
    return REFS[t, fn]


def refsol(key, ref, st):
    k = (key, repr(sorted(st.items())))
    if k not in SOLS:
        SOLS[k] = ref.solve(st), ref.linear(st)[3], ref.derived(st)
    return SOLS[k]


def setup(tier):
    for t in T:
        for fn in FUN:
            r = refmodel(t, fn)
            refsol((t, fn), r, dict(r.calib))
            refsol((t, fn), r, dict(r.calib, rho=0.15, a=0.35))


class World:
    def __init__(self, root):
        self.root = root
        self.files = {k: list(v) for k, v in INIT.items()}
        self.live = []  # (model, reference state)

    def p(self, f):
        return os.path.join(self.root, f + ".yaml")

    def sync(self):
        for f, (t, fn) in self.files.items():
            os.makedirs(os.path.dirname(self.p(f)), exist_ok=True)
            for path, content in ((self.p(f), T[t]), (self.p(f)[:-5] + "_funcs.py", FUN[fn])):
                # bytecode caches and time stamps must not matter
                with open(path, "w") as fh:
                    fh.write(content)

    def do(self, op):
        from pydsge import DSGE

        w = op.split()
        self.sync()
        if w[0] in ("read", "nocache"):
            t, fn = self.files[w[1]]
            m = quiet(DSGE.read, self.p(w[1]), nocache=w[0] == "nocache")
            ref = refmodel(t, fn)
            self.live.append((m, dict(ref=ref, key=(t, fn), par=dict(ref.calib), path=os.path.dirname(self.p(w[1])), name=ref.yaml["declarations"]["name"], data=None, extra=None, prior=0.5, desc=None, raw=T[t])))
        elif w[0] == "text":
            self.files[w[1]][0] = w[2]
        elif w[0] == "funcs":
            self.files[w[1]][1] = w[2]
        elif w[0] == "copy":
            self.files[w[2]] = list(self.files[w[1]])
        elif w[0] == "mut":
            m, s = self.live[-1]
            if w[1] == "par":
                quiet(m.set_par, "rho", 0.15)
                quiet(m.set_par, "a", 0.35)
                s["par"].update(rho=0.15, a=0.35)
            elif w[1] == "data":
                df = pd.DataFrame(np.arange(12.0).reshape(6, 2), columns=["o1", "o2"])
                quiet(m.load_data, df)
                s["data"] = df
            elif w[1] == "fdict":
                m.fdict["mode_x"] = np.array([0.2, 0.3])
                m.fdict["yaml_raw"] = "changed"
                s["extra"], s["raw"] = [0.2, 0.3], "changed"
            elif w[1] == "attrs":
                m.name, m.path, m.description = "zzz", "/nowhere", "ddd"
                s["name"], s["path"], s["desc"] = "zzz", "/nowhere", "ddd"
            elif w[1] == "prior":
                m.prior["rho"][0] = 0.77
                s["prior"] = 0.77
            elif w[1] == "lists":
                # arrays that are handed out
                for x in (quiet(m.get_par), quiet(m.get_par, "calib"), m.par_fix):
                    x[0] = 0.45
                m.par_fix[0] = 0.5  # put back: the calibration itself is shared with nobody
                m.par_fix[1] = 0.44
                s["cal1"] = 0.44
        for m, s in self.live:
            self.check(m, s, op)

    def check(self, m, s, op):
        ref, st = s["ref"], s["par"]
        sol, lin, der = refsol(s["key"], ref, st)
        if not fclose(quiet(m.get_par), [st[n] for n in ref.par_names]):
            raise Fail("parameters", "parameters are %s, expected %s" % (m.get_par(), st))
        cal = dict(ref.calib)
        if "cal1" in s:
            cal[ref.par_names[1]] = s["cal1"]
        if not fclose(quiet(m.get_par, "calib"), [cal[n] for n in ref.par_names]):
            raise Fail("calibration", "calibration is %s, expected %s" % (m.get_par("calib"), cal))
        if not fclose(quiet(m.get_par, "d"), der["d"]):
            raise Fail("functions", "derived parameter is %s, expected %s" % (quiet(m.get_par, "d"), der["d"]))
        if str(m.name) != s["name"] or os.path.abspath(str(m.path)) != os.path.abspath(s["path"]):
            raise Fail("identity", "model has name %s and path %s, expected %s and %s" % (m.name, m.path, s["name"], s["path"]))
        if s["desc"] is None and str(m.description) == "ddd":
            raise Fail("identity", "description of another model")
        if (s["data"] is None) != (not hasattr(m, "data")) or (s["data"] is not None and not fclose(m.data.values, s["data"].values)):
            raise Fail("data", "model %s data" % ("carries" if s["data"] is None else "lost its"))
        if (m.fdict.get("mode_x") is None) != (s["extra"] is None) or str(m.fdict["yaml_raw"]) != s["raw"]:
            raise Fail("results", "stored results of another model, or lost")
        if m.prior["rho"][0] != s["prior"]:
            raise Fail("prior", "prior is %s" % m.prior)
        x, y = np.zeros(sol.n), np.zeros(len(m.vv))
        vv = [str(v) for v in m.vv]
        for e in ([0.5], [-0.2]):
            x = sol.step(x, e, 0, 0)
            y = np.asarray(quiet(m.t_func, y, np.array(e), linear=True)[0])
            R = x[: len(ref.vars)]
            if not fclose(y[[vv.index(v) for v in ref.vars]], R, 1e-6, 1e-7):
                raise Fail("system", "dynamics do not correspond to the file %s: %s, expected %s" % (s["key"], y, R))
            P = dict(zip(ref.vars, R))
            E = [sum(c * P[n] for (q, n, d), c in lin[o].d.items()) + lin[o].c for o in ref.observables]
            if not fclose(np.asarray(quiet(m.obs, y), float), E, 1e-6, 1e-7):
                raise Fail("observables", "observables do not correspond to the file")


def explore(w, hist, depth, full, cnt):
    if len(hist) >= depth:
        return cnt
    for op in OPS:
        if not nexts(hist, op, full):
            continue
        if len(hist) + 1 == depth and op.startswith(("text", "funcs", "copy")):
            continue  # changes no model: nothing new to observe
        a, b = forked(node, w, hist, op, depth, full)
        cnt[0] += a
        cnt[1] += b
    return cnt


def node(w, hist, op, depth, full):
    try:
        w.do(op)
    except Fail as f:
        raise Fail(f.sig, "after %s: %s" % (hist + [op], f.msg), f.detail) if not f.msg.startswith("after") else f
    return explore(w, hist + [op], depth, full, [1, 1])


def run(case, api):
    w = World(api.dir())

    def go():
        h = []
        for op in case["prefix"][:-1]:
            try:
                w.do(op)
            except Fail as f:
                raise Fail(f.sig, "after %s: %s" % (h + [op], f.msg), f.detail)
            h.append(op)
        return node(w, h, case["prefix"][-1], case["depth"], case["full"])

    a, b = forked(go)
    api.states += a
    api.transitions += b
    api.traces += a
    api.outcome(case["prefix"], a)
    shutil.rmtree(w.root, ignore_errors=True)
