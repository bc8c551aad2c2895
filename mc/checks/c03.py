"""C03: given durations, the path obeys the model with the constraint binding as assumed"""
import itertools
import os

import numpy as np

from common import Fail, cols, fclose, impl_state, quiet, read
from refmodel import RefModel
from checks.c01 import build
from checks import c02
import pranges

ID = "C03"
HOW = "all duration pairs are executed on the real transition function from a complete affine basis of states and shocks (the map is affine given durations), and compared with the reference path and with the residuals of the written equations; the iterations of parallel (prange) loops are executed as coroutines under all schedules with one preemption (thorough: two), with uninitialised memory made visible"
ASSUMPTIONS = ["the transition function is affine in state and shocks for given durations (so the basis decides all states)", "numerical agreement up to 1e-6"]

M = {k: c02.M[k][0] for k in c02.M}
M["small"] = build(["x", "r"], ["x = 0.5*x(+1) - sig*r + e_x"], "r = phi*x", ["e_x"], [("sig", ".5"), ("phi", "1.5"), ("s1", ".4"), ("x_bar", "-1")], [("o", "x")])
M["lags"] = build(
    ["y", "c", "r", "p", "z", "w"],
    ["w = e_r", "y = 0.6*y(+1) + 0.2*y(-2) - sig*(r - p(+1)) + z", "p = 0.8*p(+1) + 0.1*p(-1) + kap*y", "z = rho*z(-1) + e_z + 0.4*e_z(-1)", "c = 0.7*c(-1) + y(+1) - 0.1*r(-1) + 0.2*r(+1)"],
    "r = 0.6*r(-1) + phi*p + 0.2*z + 0.3*e_r + 0.05*c(-1)",
    ["e_z", "e_r"],
    [("sig", ".5"), ("kap", ".1"), ("phi", ".8"), ("rho", ".8"), ("s1", ".4"), ("x_bar", "-1")],
    [("o", "y"), ("o2", "r")],
)
# the model of the documentation (three shocks, asset prices, shadow rate as a variable of its own)
M["asset"] = open(os.path.join(os.path.dirname(__file__), "..", "models", "asset.yaml")).read()
# parametrizations that put coefficients to zero, and other bounds
VAR = {
    "nk": [{}, dict(rr=0), dict(rho=0), dict(sig=0.05, kap=1, phi=3), dict(x_bar=-0.2), dict(x_bar=0)],
    "hybrid": [{}, dict(g=0), dict(a=0), dict(b=0, g=0), dict(f=0), dict(sig=0), dict(h=0, d=0), dict(rho=0), dict(x_bar=-0.01)],
    "fwd": [{}, dict(a=0), dict(b=0, d=0), dict(z=0.8), dict(f=0), dict(x_bar=-3)],
    "ar2": [{}, dict(b=0), dict(c=0, f=0), dict(k=0), dict(d=0)],
    "small": [{}, dict(sig=0.1), dict(x_bar=-0.3)],
    "lags": [{}, dict(rho=0), dict(x_bar=-2, phi=2)],
    "asset": [{}, dict(rho=0, phi_pi=2.5), dict(theta=0.3, nub=0.2, elb_level=0.8), dict(psi=0, nub=0)],
}
SET = {
    "quick": [(None, None, False), (4, 3, False), (2, 1, True), (3, 0, False), (2, 17, False), (6, 25, False), (2, None, False), (None, 9, True), (1, 5, False)],
    "thorough": [(l, k, p) for l in (None, 1, 2, 3, 4, 7, 12) for k in (None, 0, 1, 2, 3, 5, 9, 17, 40) for p in (False, True)],
}
SCHED = {"quick": [(2, 2), (3, 1), (2, 3)], "thorough": [(2, 2), (3, 1), (2, 3), (4, 2), (2, 5)]}
BOUNDS = {t: "%d model/parameter variants x %d settings of (l_max, k_max, parallel) x all (l, k) within the maxima x affine basis of states and shocks; after recompilation with other settings as well; parallel loops: all orders of up to 4 iterations and all preemptions of one iteration by another before any statement (thorough: two preemptions), 3-5 settings of maxima" % (sum(map(len, VAR.values())), len(SET[t])) for t in SET}


def cases(tier):
    out = []
    for m in VAR:
        for v in VAR[m]:
            for i, s in enumerate(SET[tier]):
                if tier == "quick" and v and i > 3:
                    continue
                out.append(dict(model=m, par=v, set=[list(s)]))
            # histories of settings on one object: maxima persist until they are changed
            for a, b in itertools.product(SET[tier][:2] + SET[tier][-1:], SET[tier][1:4] + SET[tier][-3:-1]) if not v else []:
                out.append(dict(model=m, par=v, set=[list(a), list(b)]))
    for m in VAR:
        for s in SCHED[tier]:
            out.append(dict(model=m, par={}, sched=list(s)))
    return out


def run_sched(case, api):
    """the parallel preprocessing gives the same rules under all schedules of its loops"""
    text = M[case["model"]]
    ref = RefModel(text)
    m = read(api, text)
    l_max, k_max = case["sched"]
    ne = len(ref.shocks)
    # new arrays every time: between two schedules, something else is compiled
    par = [float(ref.calib[n]) for n in ref.par_names]

    def act():
        with pranges.unplanned():
            quiet(m.set_par, par, l_max=2, k_max=1)
        quiet(m.set_par, par, l_max=l_max, k_max=k_max, parallel=True)

    def observe():
        out = []
        n = len(m.vv)
        X = [(np.zeros(n), np.zeros(ne)), (np.linspace(-1, 1, n), np.ones(ne)), (np.ones(n), -np.arange(1.0, ne + 1))]
        for l in range(l_max + 2):
            for k in range(k_max + 1):
                for x, e in X:
                    out.append(("the state for l=%d, k=%d" % (l, k), np.asarray(quiet(m.t_func, x, e, set_k=(l, k))[0], float)))
        return out

    pranges.explore(api, act, observe, "%s, l_max=%d, k_max=%d" % (case["model"], l_max, k_max), api.tier == "thorough")
    api.traces += 1


def run(case, api):
    if "sched" in case:
        return run_sched(case, api)
    text = M[case["model"]]
    ref = RefModel(text)
    m = read(api, text)
    p = case["par"]
    par = [float(p.get(n, ref.calib[n])) for n in ref.par_names]
    if ref.determinacy(p) != "unique":
        raise RuntimeError("bad variant")
    L, K = 2, 17  # documented defaults: 3 periods until the constraint binds, 17 at the constraint
    for l_max, k_max, parallel in case["set"]:
        kw = {a: b for a, b in (("l_max", l_max), ("k_max", k_max)) if b is not None}
        quiet(m.set_par, par, parallel=parallel, **kw)
        if l_max is not None:
            L = l_max
        if k_max is not None:
            K = k_max
    sol = ref.solve(p)
    n, ne = sol.n, len(ref.shocks)
    names = [str(v) for v in m.vv]
    miss = [v for v in ref.vars if v not in names]
    if miss:
        raise Fail("variables", "variables %s are not part of the solution" % miss)
    starts = [(np.zeros(n), np.zeros(len(names)), np.zeros(ne))]
    # states reached after a shock
    for i in range(ne):
        e = np.eye(ne)[i]
        starts.append((np.zeros(n), np.zeros(len(names)), e))
        P = sol.path(np.zeros(n), e, 0, 0, n)
        s = np.zeros(len(names))
        for t in range(n):
            s, f = quiet(m.t_func, s, e if t == 0 else np.zeros(ne), linear=True)
            s = np.asarray(s)
            starts.append((P[t], s, np.zeros(ne)))
        starts.append((P[0], starts[-n][1], -2 * e))
    if all(v in ref.vars or (v.endswith("_lag") and v[:-4] in ref.vars) for v in names):
        starts += [(np.eye(n)[i], impl_state(m, sol.names, np.eye(n)[i], ref.vars), np.zeros(ne)) for i in range(n)]
    rlead = max(k[2] for r in ref.linear(p)[0] for k in r)
    ix = [sol.names.index(v) for v in ref.vars]
    jx = [names.index(v) for v in ref.vars]
    for l in range(0, L + 2):
        for k in range(0, K + 1):
            H = l + k + 2 + rlead
            for no, (x0, s, e) in enumerate(starts):
                api.states += 1
                X = np.empty((H, len(names)))
                a, b = l, k
                for t in range(H):
                    s, lk, flag = quiet(m.t_func, s, e if t == 0 else np.zeros(ne), set_k=(a, b), return_k=True)
                    if t == 0 and (tuple(int(z) for z in lk) != (a, b) or flag):
                        raise Fail("durations", "set_k=%s returned durations %s, flag %s" % ((a, b), lk, flag))
                    X[t] = np.asarray(s)[: len(names)]
                    a, b = (a - 1, b) if a else (0, max(b - 1, 0))
                api.transitions += H
                R = sol.path(x0, e, l, k, H)[:, ix]
                X = X[:, jx]
                scale = max(1.0, np.max(np.abs(R)))
                if not fclose(X / scale, R / scale, 1e-6, 1e-6):
                    t, j = np.argwhere(~(np.abs(X - R) <= 1e-6 * scale))[0]
                    raise Fail("path", "l=%d, k=%d (l_max=%s, k_max=%s), basis state %d: %s in period %d is %.8g, expected %.8g" % (l, k, L, K, no, ref.vars[j], t, X[t, j], R[t, j]), p)
                if no in (0, 1, len(starts) - 1):
                    C = {v: X[:, i] for i, v in enumerate(ref.vars)}
                    bind = set(range(l, l + k))
                    pre = {v: [x0[i]] for v, i in zip(ref.vars, ix)}
                    if not np.any(x0):
                        res, at = ref.residuals(C, {q: [e[i]] for i, q in enumerate(ref.shocks)}, p, binding=bind, pre=pre)
                        if not res <= 1e-6 * scale:
                            raise Fail("residual", "l=%d, k=%d: equation %d violated by %.3g in period %d" % (l, k, at[1] + 1, res, at[0]), p)
    # the same through impulse responses
    if case["set"][-1][1] != 0:
        for l, k in itertools.product(range(0, L + 2), sorted({0, 1, 2, 3, K - 1, K} & set(range(K + 1)))):
            for i in range(ne):
                e = np.eye(ne)[i] * 0.7
                H = min(l + k + 3, 30)
                for form in ("tuple", "int") if l == 0 and k else ("tuple",):
                    X, LK, flag = quiet(m.irfs, (ref.shocks[i], 0.7, 0), T=H, set_k=(l, k) if form == "tuple" else k, verbose=False)
                    api.transitions += H
                    R = sol.path(np.zeros(n), e, l, k, H)[:, ix]
                    X = np.asarray(X.values, float)[:, jx]
                    scale = max(1.0, np.max(np.abs(R)))
                    if flag or not fclose(X / scale, R / scale, 1e-6, 1e-6):
                        raise Fail("irfs", "irfs(set_k=%s, %s) to %s deviates: %s, expected %s" % ((l, k), form, ref.shocks[i], X[:2], R[:2]), p)
    api.traces += 1
    api.outcome(case["model"], np.round(R[-1], 8).tolist())
