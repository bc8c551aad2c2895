"""C23: calls that fail leave the model as it was"""
import itertools

import numpy as np
import pandas as pd

from common import Fail, fclose, quiet
from harness import in_pydsge
from checks import c06
from checks.c06 import EST, FULL1, RR

ID = "C23"
HOW = "inadmissible arguments are injected at every position of the samples of every batch operation, and into every other argument, on real model objects in every state reached by the histories of settings; the call has to fail (or to return what is documented for it), and afterwards every observable (parameters, covariances, data, likelihood of the linear filter, transition incl. durations, observables) has to be that of the reference machine, as if the call had never been made"
ASSUMPTIONS = ["numerical agreement up to 1e-6", "the model was compiled and, for operations on filters, prepared for estimation before", "interruptions from outside (signals, full disks) are not injected"]

# how an element of a sample can be inadmissible
KINDS = {
    "nosol": lambda ma, st: ma.arr(dict(st, phi=0.1)),
    "explosive": lambda ma, st: ma.arr(dict(st, rho=1.3)),
    "bound": lambda ma, st: ma.arr(dict(st, **({"x_bar": 0.5} if "x_bar" in ma.names else {"cc": -3.0}))),
    "order": lambda ma, st: ma.arr(dict(st, rho=0.0)),
    "nan": lambda ma, st: ma.arr(dict(st, sig=np.nan)),
    "short": lambda ma, st: ma.arr(st)[:3],
    "est nosol": lambda ma, st: ma.est(dict(st, phi=0.1)),
}
BATCH = ["obs", "nhd", "gfevd", "simulate", "irfs", "extract"]
# the same with other maximal durations, and setting parameters
WITHLK = ["nhd lk", "gfevd lk", "simulate lk", "irfs lk", "extract lk", "set", "set lk"]
POS = {"quick": [(0, 1), (0, 2), (1, 2), (2, 3)], "thorough": [(i, n) for n in (1, 2, 3, 4) for i in range(n)]}
# other inadmissible arguments
MISC = {
    "irfs unknown shock": lambda ma, m, n: m.irfs([("e_u", 1, 0), ("e_x", 1, 1)], T=3, verbose=False),
    "irfs durations": lambda ma, m, n: m.irfs(("e_u", 1, 0), T=3, set_k=(40, 90), verbose=False),
    "irfs short state": lambda ma, m, n: m.irfs(("e_u", 1, 0), T=3, state=np.zeros(0), verbose=False),
    "t_func durations": lambda ma, m, n: m.t_func(np.zeros(n), np.zeros(2), set_k=(40, 90)),
    "t_func shocks": lambda ma, m, n: m.t_func(np.zeros(n), np.zeros(5)),
    "obs states": lambda ma, m, n: m.obs(np.zeros((2, n + 3))),
    "obs batch of states": lambda ma, m, n: m.obs(np.zeros((2, 3, n + 3)), pars=np.array([ma.arr(dict(ma.cal, **FULL1)), ma.arr(ma.cal)])),
    "simulate shocks": lambda ma, m, n: m.simulate(dict(pars=[ma.arr(dict(ma.cal, **FULL1))], resid=np.zeros((1, 2, 4)), init=np.zeros((1, n)))),
    "simulate incomplete": lambda ma, m, n: m.simulate(dict(pars=[ma.arr(dict(ma.cal, **FULL1))], resid=np.zeros((1, 2, 2)))),
    "nhd shocks": lambda ma, m, n: m.nhd(dict(pars=np.array([ma.arr(dict(ma.cal, **FULL1))]), resid=np.zeros((1, 2, 1)), init=np.zeros((1, n)))),
    "gfevd samples": lambda ma, m, n: m.gfevd(dict(pars=np.array([ma.arr(dict(ma.cal, **FULL1))] * 2), resid=np.zeros((2, 2, 2)), means=np.zeros((2, 3, n))), nsamples=9, verbose=False),
    "gfevd horizon": lambda ma, m, n: m.gfevd(dict(pars=np.array([ma.arr(dict(ma.cal, **FULL1))] * 2), resid=np.zeros((2, 2, 2)), means=np.zeros((2, 3, n))), horizon=0, verbose=False),
    "load_data gap": lambda ma, m, n: m.load_data(pd.DataFrame([[1.0, np.nan], [2.0, 3.0]], columns=["o1", "o2"])),
    "load_data column": lambda ma, m, n: m.load_data(pd.DataFrame([[1.0], [2.0]], columns=["o1"])),
    "load_data type": lambda ma, m, n: m.load_data([[1.0, 2.0]]),
    "set short": lambda ma, m, n: m.set_par([0.3, 0.2]),
    "set long": lambda ma, m, n: m.set_par(np.ones(30)),
    "set text": lambda ma, m, n: m.set_par("sig", "a lot"),
    "set unknown": lambda ma, m, n: m.set_par("zzz", 0.3),
    "get unknown": lambda ma, m, n: m.get_par("zzz"),
    "get npar": lambda ma, m, n: m.get_par("kap", npar=np.ones(3)),
    "cov npar": lambda ma, m, n: m.get_cov(npar=np.ones(3)),
    "npar unknown": lambda ma, m, n: m.set_par("zzz", 0.3, npar=ma.arr(ma.cal)),
    "shock2state": lambda ma, m, n: m.shock2state(("e_x", 1.0)),
    "traj": lambda ma, m, n: m.traj(np.zeros(n + 7), verbose=False),
    "k_map": lambda ma, m, n: m.k_map(np.zeros(n + 7), verbose=False),
    "read broken": lambda ma, m, n: broken(ma, m),
}
PRE = [[], ["set full"], ["set l_max", "set phi"]]
BOUNDS = {
    t: "2 files x start {compiled, prepared for estimation} x %d histories of settings before x (%d batch operations (with and without other maxima) x %d kinds of inadmissible elements x positions %s + %d other inadmissible calls); all ordered pairs of failing calls (%s); another setting after the failure"
    % (len(PRE), len(BATCH + WITHLK), len(KINDS), POS[t], len(MISC), "one position per operation and kind, one start" if t == "quick" else "all, both starts")
    for t in POS
}


def broken(ma, m):
    import os
    from pydsge import DSGE

    f = ma.file[:-5] + "_broken.yaml"
    with open(f, "w") as fh:
        fh.write(ma.text.replace("bet*p(+1)", "betx*p(+1)"))
    return DSGE.read(f)


def fops(pos):
    out = [["batch", o, k, i, n] for o in BATCH for k in KINDS for i, n in pos]
    for o in WITHLK:
        out += [["batch", o, k, i, n] for k in KINDS for i, n in (pos if "set" not in o else pos[:1]) if "set" not in o or k != "order"]
    return out + [["misc", k] for k in MISC]


def cases(tier):
    out = []

    def add(xb, start, H, size):
        for i in range(0, len(H), size):
            out.append(dict(xb=xb, start=start, hist=H[i: i + size]))

    for xb in ("par", "func"):
        for start in c06.START:
            H = []
            for no, (p, f) in enumerate(itertools.product(PRE, fops(POS[tier]))):
                H.append(p + [f])
                if tier == "thorough" or no % 5 == 0:
                    H.append(p + [f, "set phi"])
            add(xb, start, H, 60)
            if tier == "thorough" or (xb == "par" and start == "prep"):
                one = fops([(1, 2)])
                one = [f for f in one if f[0] == "misc" or f[2] in ("nosol", "bound", "order", "short")] if tier == "quick" else one
                P = [list(q) for q in itertools.product(one, repeat=2)]
                add(xb, start, P if tier == "thorough" else P[::3], 60)
    return out


class Machine(c06.Machine):
    def fresh(self):
        m = super().fresh()
        if self.start == "fresh":
            quiet(m.set_par, "calib")
        return m

    def do(self, m, op):
        if isinstance(op, str):
            return super().do(m, op)
        n = len(m.vv)
        before = list(m.data.to_numpy().ravel()) if self.start == "prep" else None
        if op[0] == "misc":
            f, must = (lambda: MISC[op[1]](self, m, n)), True
            if op[1] in ("gfevd horizon", "irfs short state", "cov npar", "get npar", "set text"):
                must = False
        else:
            f, must = self.batch(m, n, *op[1:])
        try:
            r = quiet(f)
            err = None
        except Exception as e:
            if not in_pydsge(e.__traceback__):
                raise
            err = e
        if must and err is None:
            raise Fail("accepted", "%s did not fail" % (op,))
        if op[0] == "batch" and op[1][:4] == "irfs" and err is None and op[2] in ("nosol", "explosive", "est nosol"):
            X = np.asarray(r[0], float)
            ok = [bool(np.isfinite(x).all()) for x in X]
            if ok != [i != op[3] for i in range(op[4])]:
                raise Fail("missing", "%s: responses are given for elements %s" % (op, ok))
        if self.start == "prep" and list(m.data.to_numpy().ravel()) != before:
            raise Fail("data", "%s replaced the data" % (op,))

    def batch(self, m, n, o, k, i, N):
        st = self.st
        ok = [dict(st, sig=0.62, kap0=0.08), dict(st, s=0.7, rr=0.1), dict(st, cc=0.7, bet=0.8), dict(st, phi=1.75)]
        P = [self.arr(q) for q in ok[:N]]
        if k == "est nosol":
            P = [self.est(q) for q in ok[:N]]
        P[i] = KINDS[k](self, st)
        if len(set(len(p) for p in P)) == 1:
            P = np.array(P)
        T = len(m.data) if self.start == "prep" else 4
        E = np.array([[[0.3 - 0.1 * t + j, -0.2 * j] for t in range(T - 1)] for j in range(N)])
        I = np.ones((N, n)) * 0.1
        X = np.ones((N, T, n)) * 0.2
        must = k in ("nosol", "explosive", "bound", "est nosol")
        d = dict(pars=P, resid=E, init=I)
        lk = {}
        if o[-3:] == " lk":
            o, lk = o[:-3], dict(l_max=4, k_max=9)
        if o == "set":
            return (lambda: m.set_par(P[i], **lk)), k != "nan"
        if o == "obs":
            return (lambda: m.obs(X, pars=P)), k == "bound"
        if o == "nhd":
            return (lambda: m.nhd(d, **lk)), must
        if o == "gfevd":
            # one element of the sample is one draw
            d = dict(pars=P, resid=E[:, 0], means=X[0][:1].repeat(N + 1, 0))
            return (lambda: m.gfevd(d, verbose=False, **lk)), must
        if o == "simulate":
            return (lambda: m.simulate(d, **lk)), must
        if o == "irfs":
            return (lambda: m.irfs(("e_u", 0.5, 0), T=3, pars=P, verbose=False, **lk)), k == "bound"
        if o == "extract":
            return (lambda: m.extract(sample=P, verbose=False, **lk)), must
        raise KeyError(o)


def run(case, api):
    ma = Machine(api, case["xb"], case["start"])
    for h in case["hist"]:
        m = ma.fresh()
        api.states += 1
        try:
            for op in h:
                api.transitions += 1
                ma.do(m, op)
            ma.observe(m, api)
        except Fail as f:
            raise Fail(f.sig, "after %s: %s" % (h, f.msg), dict(hist=h, start=case["start"], xb=case["xb"]))
        api.traces += 1
        api.outcome(str(h[-1])[:40])
