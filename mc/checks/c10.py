"""C10: filtering is exact and repeatable"""
import itertools

import numpy as np
import pandas as pd

from common import Fail, fclose, forked, quiet, read
from refmodel import RefModel
from reffilter import RefFilter, Tie, ensemble
from checks.c01 import build
from checks import c03

ID = "C10"
HOW = "linear filter: every combination of model, parametrization, data set of the lattice and measurement error is filtered and smoothed by the real code and compared with conditional moments of the joint Gaussian distribution implied by the reference solution; nonlinear filter: the same with the ensemble filter run on the reference transition; histories: the tree of all sequences of operations is executed on the real object (forked at every node), and at every node likelihood and smoothed states must be those of the current parameters, data, and filter"
ASSUMPTIONS = [
    "numerical agreement up to 1e-6 (1e-5 for smoothed states)",
    "the generic ensemble update of econsieve is shared between code and reference; transition, measurement, shock and initial distribution are not",
]

M = {}
M["base"] = build(
    ["x", "r", "u", "z"],
    ["x = 0.3*x(+1) - sig*r + u", "u = rho*u(-1) + e_u", "z = ph*z(-1) + 0.2*x + e_z"],
    "r = 1.5*x + 0.3*z",
    ["e_u", "e_z"],
    [("sig", ".5"), ("rho", ".6"), ("ph", ".5"), ("s1", ".4"), ("s2", ".3"), ("x_bar", "-0.4")],
    [("o1", "x + sig"), ("o2", "2*z - r")],
    cov={"e_u": "s1", "e_z": "2*s2"},
) + "estimation:\n  prior:\n    rho: [0.5, 0.01, 0.99, beta, 0.6, 0.1]\n    s2: [0.4, 0.01, 3, normal, 0.5, 0.1]\n"
M["square"] = build(["x", "r"], ["x = rho*x(-1) - sig*r + e_x + 0.3*e_r"], "r = 0.8*x + e_r", ["e_x", "e_r"], [("rho", ".5"), ("sig", ".2"), ("s1", ".4"), ("s2", ".6"), ("x_bar", "-0.5")], [("o1", "x + 0.1"), ("o2", "r")], cov={"e_x": "s1", "e_r": "s2"})
M["nk"] = build(
    ["y", "p", "r", "u", "v"],
    ["y = y(+1) - sig*(r - p(+1)) + u", "p = 0.95*p(+1) + kap*y + v", "u = rho*u(-1) + e_u", "v = 0.3*v(-1) + e_v + 0.2*e_r"],
    "r = 0.7*r(-1) + 0.5*p + 0.1*y + e_r",
    ["e_u", "e_v", "e_r"],
    [("sig", "1"), ("kap", ".2"), ("rho", ".8"), ("s1", ".3"), ("s2", ".2"), ("s3", ".1"), ("x_bar", "-0.5")],
    [("oy", "y"), ("op", "p + 0.5"), ("or", "r + 1")],
    cov={"e_u": "s1", "e_v": "s2", "e_r": "s3"},
)
# long lags: auxiliary states (linear filter only)
M["long"] = build(["x", "r", "u"], ["x = 0.4*x(-2) + 0.2*x(+1) - 0.3*r + u + 0.5*e_z(-2)", "u = rho*u(-3) + e_u"], "r = 1.2*x", ["e_u", "e_z"], [("rho", ".6"), ("s1", ".4"), ("s2", ".5"), ("x_bar", "-1")], [("o1", "x"), ("o2", "u - 0.2")], cov={"e_u": "s1", "e_z": "s2"})
M["asset"] = c03.M["asset"]
VAR = {
    "base": [{}, dict(rho=0.0), dict(rho=0.95, ph=0.0), dict(sig=-0.2, s1=0.1), dict(ph=-0.7, s2=0.01)],
    "square": [{}, dict(rho=-0.4), dict(rho=0.0), dict(s1=1.3, s2=0.05)],
    "nk": [{}, dict(rho=0.2, kap=0.05), dict(s3=0.5, sig=0.3)],
    "long": [{}, dict(rho=0.0), dict(rho=-0.5, s1=0.9)],
    "asset": [{}, dict(rho=0.0, phi_pi=2.5, sig_u=0.2)],
}
NT = {"quick": 3, "thorough": 4}
VALS = {2: (-1.2, 0.5), 3: (-0.9, 0.6)}
ERR = [
    ("none", lambda n: np.zeros((n, n))),
    ("diag", lambda n: np.diag(0.01 * (1 + np.arange(n)))),
    ("full", lambda n: 0.04 * np.eye(n) + 0.02),
]
OPS = ["A", "B", "bad", "D2", "R", "ll", "smooth", "misc", "cKF", "cE", "cR", "lprob", "prior"]
DEPTH = {"quick": 3, "thorough": 4}
BOUNDS = {
    t: "linear: %d model/parameter points x 3 measurement errors x all data sets of %d periods with two values per observable (for three observables: all +/- patterns of the first two periods); nonlinear: the same without auxiliary states x (reduced, full) x ensembles of 4 and 7 x binding and slack bounds x 16 data sets; histories: all sequences of %d operations out of %s from each of three filters"
    % (sum(map(len, VAR.values())), NT[t], DEPTH[t], OPS)
    for t in NT
}


def cases(tier):
    out = []
    for m in VAR:
        for p in VAR[m]:
            for r in range(3):
                out.append(dict(kind="lin", model=m, par=p, R=r))
    for m in ("base", "square", "nk"):
        for p in VAR[m]:
            for xb in (None, -5.0):
                for red in (0, 1):
                    for N in (4, 7) if tier == "quick" else (4, 7, 12):
                        out.append(dict(kind="ens", model=m, par=p if xb is None else dict(p, x_bar=xb), reduced=red, N=N))
    for f in ("cKF", "cE", "cR"):
        for a in OPS:
            for b in OPS if tier == "thorough" else [None]:
                out.append(dict(kind="hist", prefix=[f, a] + ([b] if b else []), depth=DEPTH[tier] + 1))
    return out


def datasets(ny, nT, limit=None):
    v = VALS[ny]
    if ny == 3:
        # all patterns in the first two periods; the remainder fixed
        for c in itertools.product(v, repeat=6):
            yield np.vstack((np.reshape(c, (2, 3)), [[0.1, -0.2, 0.3]] * (nT - 2)))
    else:
        for c in itertools.product(v, repeat=ny * nT):
            yield np.reshape(c, (nT, ny)).astype(float)


def frame(ref, Y):
    return pd.DataFrame(Y, columns=ref.observables)


def eq(got, want, tol, sig, msg, det=None):
    if not fclose(got, want, tol, tol):
        raise Fail(sig, "%s is %s, expected %s" % (msg, np.asarray(got).tolist(), np.asarray(want).tolist()), det)


def check_linear(m, rf, Y, R, what="", deep=True):
    names = [str(v) for v in m.vv]
    ref = rf.ref
    jx = [names.index(v) for v in ref.vars if v in names]
    ix = [rf.sol.names.index(v) for v in ref.vars if v in names]
    eq(quiet(m.get_ll), rf.loglik(Y, R), 1e-6, "likelihood", what + "log likelihood")
    if not deep:
        return
    for sm in (False, True):
        X, P = quiet(m.run_filter, smoother=sm)
        X = np.asarray(X)
        E, V = rf.moments(Y, R, sm)
        w = "smoothed" if sm else "filtered"
        eq(X[:, jx], E[:, ix], 1e-5 if sm else 1e-6, w, what + w + " states")
        eq(np.asarray(P)[:, jx][:, :, jx], V[:, ix][:, :, ix], 1e-5 if sm else 1e-6, w + " covariance", what + w + " covariances")
        if not fclose(np.asarray(m.X[0]), X):
            raise Fail("stored", "stored states are not those returned")


def run_lin(case, api):
    text = M[case["model"]]
    ref = RefModel(text)
    m = read(api, text)
    p = case["par"]
    quiet(m.set_par, [p.get(n, ref.calib[n]) for n in ref.par_names])
    rf = RefFilter(ref, ref.solve(p), p)
    ny = len(ref.observables)
    R = ERR[case["R"]][1](ny)
    if np.linalg.cond(rf.joint(2, R)[2]) > 1e8:
        api.skipped += 1
        return
    for i, Y in enumerate(datasets(ny, NT[api.tier])):
        quiet(m.load_data, frame(ref, Y))
        if i == 0:
            quiet(m.create_filter, R=R, ftype="KF" if case["R"] else "KalmanFilter")
        check_linear(m, rf, Y, R, "data %s: " % Y.tolist())
        api.states += len(Y)
        api.transitions += 3 * len(Y)
        api.traces += 1
    api.outcome(case["model"], case["par"], case["R"], round(float(m.ll), 3))


def run_ens(case, api):
    text = M[case["model"]]
    ref = RefModel(text)
    m = read(api, text)
    p = case["par"]
    quiet(m.set_par, [p.get(n, ref.calib[n]) for n in ref.par_names], l_max=3, k_max=6)
    rf = RefFilter(ref, ref.solve(p), p)
    ny = len(ref.observables)
    R = ERR[1][1](ny)
    D = list(datasets(ny, 3))
    for i, Y in enumerate(D[:: max(1, len(D) // 16)]):
        quiet(m.load_data, frame(ref, Y))
        seed = None if i % 2 else 5
        quiet(m.create_filter, R=R, N=case["N"], reduced_form=bool(case["reduced"]), seed=seed)
        api.states += case["N"] * len(Y)
        api.transitions += case["N"] * len(Y)
        api.traces += 1
        try:
            E, st = ensemble(rf, m.vv, m.dimp, Y, R, case["N"], 4, 6, case["reduced"], seed=seed)
            S = None
            if len(m.vv) > m.dimp or not case["reduced"]:
                S, _ = ensemble(rf, m.vv, m.dimp, Y, R, case["N"], 4, 6, case["reduced"], seed=seed, smooth=True)
        except Tie:
            api.skipped += 1
            continue
        w = "data %s: " % Y.tolist()
        eq(quiet(m.get_ll), E, 1e-6, "likelihood", w + "log likelihood of the ensemble filter")
        eq(quiet(m.get_ll), E, 1e-6, "likelihood", w + "log likelihood of the ensemble filter when run again")
        if S is not None:
            eq(quiet(m.run_filter), S, 1e-5, "smoothed", w + "smoothed ensemble")
            eq(quiet(m.get_ll), E, 1e-6, "likelihood", w + "log likelihood of the ensemble filter after smoothing")
        api.outcome(case["model"], st["k"] > 0, st["flag"] > 0)


class World:
    """model with its reference state"""

    def __init__(self, api):
        self.ref = RefModel(M["base"])
        self.m = read(api, M["base"])
        quiet(self.m.set_par, "calib")
        self.par, self.y = {}, D1
        quiet(self.m.load_data, frame(self.ref, D1))
        self.R, self.kind = None, None

    def do(self, op):
        m = self.m
        if op == "A":
            quiet(m.set_par, "rho", 0.3)
            quiet(m.set_par, "s2", 0.2)
            self.par = dict(self.par, rho=0.3, s2=0.2)
        elif op == "B":
            # the ordering and the number of states change
            quiet(m.set_par, "ph", 0.0)
            quiet(m.set_par, "sig", 0.25)
            self.par = dict(self.par, ph=0.0, sig=0.25)
        elif op == "bad":
            try:
                quiet(m.set_par, "rho", 1.2)
            except Exception:
                return
            raise Fail("accepted", "explosive parameters were accepted")
        elif op == "D2":
            self.y = D2 if self.y is D1 else D1
            quiet(m.load_data, frame(self.ref, self.y))
        elif op == "R":
            self.R = ERR[2][1](2)
            m.filter.R = self.R
        elif op == "ll":
            quiet(m.get_ll)
        elif op == "smooth":
            quiet(m.run_filter)
        elif op == "misc":
            quiet(m.run_filter, smoother=False)
            quiet(m.irfs, ("e_u", -2, 1), T=4, verbose=False)
            quiet(m.t_func, np.zeros(len(m.vv)), np.array([1.0, 0.5]))
        elif op[0] == "c":
            self.R, self.kind = ERR[1][1](2), op
            if op == "cKF":
                quiet(m.create_filter, R=self.R, ftype="KF")
            else:
                quiet(m.create_filter, R=self.R, N=5, reduced_form=op == "cR")
        elif op == "lprob":
            # estimation uses its own filter, measurement errors and parameters
            cur = quiet(m.get_par)
            quiet(m.prep_estim, linear=True, ncores=0, verbose=False)
            quiet(m.lprob, np.array([0.7, 0.9]))
            m.fdict.pop("filter_R", None)
            quiet(m.set_par, cur, l_max=2, k_max=17)
            self.kind, self.R = "cKF", np.eye(2)
        elif op == "prior":
            quiet(m.get_par, "prior", nsamples=2, verbose=False, seed=1)
            quiet(m.get_par, "prior_mean")
            quiet(m.get_cov)
        key = (repr(sorted(self.par.items())), self.y is D1, self.kind, repr(self.R))
        if key not in REF:
            p = self.par
            sk = key[0]
            if sk not in SOL:
                SOL[sk] = RefFilter(self.ref, self.ref.solve(p), p)
            rf = SOL[sk]
            if self.kind == "cKF":
                REF[key] = rf.loglik(self.y, self.R), rf.moments(self.y, self.R, True)[0]
            else:
                a = (rf, m.vv, m.dimp, self.y, self.R, 5, 3, 17, self.kind == "cR")
                try:
                    REF[key] = ensemble(*a)[0], ensemble(*a, smooth=True)[0]
                except Tie:
                    REF[key] = None
        if REF[key] is None:
            return
        ll, sm = REF[key]
        eq(quiet(m.get_ll), ll, 1e-6, "likelihood", "log likelihood")
        X = quiet(m.run_filter)
        if self.kind == "cKF":
            vv = [str(v) for v in m.vv]
            eq(np.asarray(X[0])[:, [vv.index(v) for v in self.ref.vars]], sm[:, : len(self.ref.vars)], 1e-5, "smoothed", "smoothed states")
        else:
            eq(X, sm, 1e-5, "smoothed", "smoothed ensemble")


D1 = np.array([[0.3, 0.2], [-0.9, 0.4], [0.2, -0.3], [0.6, 0.9]])
D2 = np.array([[1.3, -0.2], [0.1, -1.4], [0.2, 0.3]])
REF, SOL = {}, {}


def node(w, hist, op, depth):
    try:
        w.do(op)
    except Fail as f:
        raise Fail(f.sig, "after %s: %s" % (hist + [op], f.msg), f.detail)
    cnt = 1
    if len(hist) + 1 < depth:
        for o in OPS:
            cnt += forked(node, w, hist + [op], o, depth)
    return cnt


def run_hist(case, api):
    w = World(api)

    def go():
        h = []
        for op in case["prefix"][:-1]:
            try:
                w.do(op)
            except Fail as f:
                raise Fail(f.sig, "after %s: %s" % (h + [op], f.msg), f.detail)
            h.append(op)
        return node(w, h, case["prefix"][-1], case["depth"])

    n = forked(go)
    api.states += n
    api.transitions += n
    api.traces += n


def run(case, api):
    {"lin": run_lin, "ens": run_ens, "hist": run_hist}[case["kind"]](case, api)
