"""C04: equilibrium selection and error flags"""
import itertools

import numpy as np

from common import Fail, fclose, impl_state, quiet, read
from harness import HarnessError
from refmodel import RefModel
from checks.c01 import build
from checks import c02, c03
import pranges

ID = "C04"
HOW = "every point of the state x shock lattices is put through the real transition function; durations, flag and resulting state are compared with a reference implementation of the documented selection on the reference solution of the file; the iterations of parallel (prange) loops are executed as coroutines under all schedules with one preemption (thorough: two), with uninitialised memory made visible"
ASSUMPTIONS = ["points at which a decision value is within 1e-7 of the bound are skipped and counted", "numerical agreement up to 1e-6"]

M = dict(c03.M)
# news shocks: the bound is hit in the future; strongly interacting constraint: multiplicity and non-existence
M["news"] = build(
    ["y", "p", "r", "u"],
    ["y = 0.9*y(+1) - sig*(r - p(+1)) + u", "p = 0.95*p(+1) + kap*y", "u = rho*u(-1) + e_u(-2) + 0.2*e_v"],
    "r = phi*p + 0.3*y + 0.2*r(-1)",
    ["e_u", "e_v"],
    [("sig", ".7"), ("kap", ".2"), ("phi", "1.5"), ("rho", ".8"), ("s1", ".4"), ("x_bar", "-1")],
    [("o", "y")],
)
M["trap"] = build(
    ["y", "p", "r", "u", "v"],
    ["y = y(+1) - sig*(r - p(+1)) + u", "p = 0.99*p(+1) + kap*y + v", "u = rho*u(-1) + e_u", "v = 0.5*v(-1) + e_v"],
    "r = phi*p + 0.1*y",
    ["e_u", "e_v"],
    [("sig", "1"), ("kap", ".5"), ("phi", "2"), ("rho", ".9"), ("s1", ".4"), ("x_bar", "-1")],
    [("o", "y")],
)
M["osc"] = build(
    ["x", "r", "u"],
    ["x = a*x(-1) + b*x(-2) - d*r(-1) + 0.1*x(+1) - f*r + u", "u = rho*u(-1) + e_u + 0.5*e_v(-3)"],
    "r = phi*x + g*u",
    ["e_u", "e_v"],
    [("a", "1.2"), ("b", "-.9"), ("d", ".1"), ("f", ".1"), ("phi", "1"), ("g", "0.2"), ("rho", ".5"), ("s1", "1"), ("x_bar", "-1")],
    [("o", "x")],
)
M["trap2"] = build(
    ["y", "p", "r", "u"],
    ["y = y(+1) - sig*(r - p(+1)) + u", "p = 0.99*p(+1) + kap*y + 0.3*e_v(-1)", "u = rho*u(-1) - b*u(-2) + e_u(-1) - 1.2*e_u(-2)"],
    "r = phi*p + 0.1*y",
    ["e_u", "e_v"],
    [("sig", "1"), ("kap", ".5"), ("phi", "2"), ("rho", ".9"), ("b", ".5"), ("s1", "1"), ("x_bar", "-1")],
    [("o", "y")],
)
VAR = {
    "osc": [{}, dict(a=-0.6), dict(a=1.5, b=-0.95, d=0)],
    "trap2": [{}, dict(rho=0.2, b=0.8), dict(rho=-0.5, b=0.3), dict(rho=0.9, b=0.9, kap=0.2)],
    "nk": [{}, dict(x_bar=-0.2), dict(sig=2, kap=1)],
    "news": [{}, dict(rho=0.5), dict(x_bar=-0.3)],
    "trap": [{}, dict(rho=0.5), dict(x_bar=-0.1)],
    "hybrid": [{}, dict(a=0.6, b=0.35, sig=0.1)],
    "ar2": [{}, dict(a=1.2, b=-0.5)],
    "small": [{}],
    "lags": [{}],
    "asset": [{}, dict(rho_u=0.95, elb_level=0.9, phi_pi=1.2)],
}
SET = {
    "quick": [(None, None), (2, 3), (5, 8), (3, 0), (2, 1), (4, 30), (6, 2), (0, 4), (1, 0)],
    "thorough": [(l, k) for l in (None, 0, 1, 2, 3, 5, 9) for k in (None, 0, 1, 2, 4, 8, 17, 40)],
}
GRID = {"quick": (-8.0, -3.0, -1.1, -0.4, 0.3, 1.7, 6.0), "thorough": (-40.0, -12.0, -5.0, -2.3, -1.1, -0.4, -0.1, 0.3, 0.9, 1.7, 6.0, 25.0)}
LINE = {"quick": tuple(np.round(np.linspace(-7.3, 4.7, 17), 3)), "thorough": tuple(np.round(np.linspace(-15.3, 9.7, 51), 3))}
SCHED = ["news", "trap", "osc", "nk"]
BOUNDS = {t: "%d model/parameter variants x %d (l_max,k_max) x (the full %d-point grid on each of three directions, and the full %d-point grid on each pair of four directions: current shocks, states after shocks one and three periods ago); parallel preprocessing: all orders of up to 4 iterations and all preemptions of one iteration by another before any statement (thorough: two preemptions)" % (sum(map(len, VAR.values())), len(SET[t]), len(GRID[t]), len(LINE[t])) for t in SET}


def cases(tier):
    out = []
    for m in VAR:
        for v in VAR[m]:
            for s in SET[tier]:
                out.append(dict(model=m, par=v, set=list(s), slice=None))
    for m in SCHED:
        for s in c03.SCHED[tier]:
            out.append(dict(model=m, par={}, sched=list(s)))
    return out


def run_sched(case, api):
    """the selection is the same under all schedules of the parallel preprocessing"""
    text = M[case["model"]]
    ref = RefModel(text)
    m = read(api, text)
    l_max, k_max = case["sched"]
    ne = len(ref.shocks)
    par = [float(ref.calib[n]) for n in ref.par_names]

    def act():
        with pranges.unplanned():
            quiet(m.set_par, par, l_max=2, k_max=1)
        quiet(m.set_par, par, l_max=l_max, k_max=k_max, parallel=True)

    def observe():
        out = []
        n = len(m.vv)
        x = np.zeros(n)
        for a in (-6.0, -2.0, -0.7, 0.4, 3.0):
            for b in (-6.0, -2.0, -0.7, 0.4, 3.0):
                e = np.array([a, b, 0.2][:ne])
                s, lk, f = quiet(m.t_func, x, e, return_k=True)
                x = np.asarray(s, float) if np.all(np.abs(s) < 20) else np.zeros(n)
                out.append(("the selection after %s" % e, np.concatenate((np.asarray(s, float), np.asarray(lk, float), [float(f)]))))
        return out

    pranges.explore(api, act, observe, "%s, l_max=%d, k_max=%d" % (case["model"], l_max, k_max), api.tier == "thorough")
    api.traces += 1


def run(case, api):
    if "sched" in case:
        return run_sched(case, api)
    text = M[case["model"]]
    ref = RefModel(text)
    m = read(api, text)
    p = case["par"]
    par = [float(p.get(n, ref.calib[n])) for n in ref.par_names]
    l_max, k_max = case["set"]
    kw = {a: b for a, b in (("l_max", l_max), ("k_max", k_max)) if b is not None}
    quiet(m.set_par, par, **kw)
    # values below two are documented to be corrected unless the constraint is switched off
    L = (2 if l_max is None or l_max < 2 and k_max != 0 else l_max) + 1
    K = 17 if k_max is None else k_max
    sol = ref.solve(p)
    n, ne = sol.n, len(ref.shocks)
    nv = len(m.vv)
    # directions: current shocks and the states after a shock one and three periods ago
    dirs = []
    for i in range(ne):
        dirs.append((np.zeros(n), np.zeros(nv), np.eye(ne)[i]))
    for i in range(ne):
        P = sol.path(np.zeros(n), np.eye(ne)[i], 0, 0, 3)
        s = np.zeros(nv)
        for t in range(3):
            s, f = quiet(m.t_func, s, np.eye(ne)[i] if t == 0 else np.zeros(ne), linear=True)
            s = np.asarray(s)
            if t in (0, 2):
                dirs.append((P[t], s, np.zeros(ne)))
    # the most different four: shocks first, then states of the last shock
    dirs = dirs[:4] if ne > 1 else dirs[:3]
    grid = GRID[api.tier]
    names = [str(v) for v in m.vv]
    ix = [sol.names.index(v) for v in ref.vars]
    jx = [names.index(v) for v in ref.vars]
    nd = len(dirs)
    pts = [(0.0,) * nd] + [tuple(q) + (0.0,) * (nd - 3) for q in itertools.product(grid, repeat=3)]
    for i, j in itertools.combinations(range(nd), 2):
        for a, b in itertools.product(LINE[api.tier], repeat=2):
            q = [0.0] * nd
            q[i], q[j] = a, b
            pts.append(tuple(q))
    A = np.array(pts)
    XX, SS, EE = (A @ np.array([d[z] for d in dirs]) for z in range(3))
    sel = sol.select_many(XX, EE, L, K)
    for i, a in enumerate(pts):
        x, s, e = XX[i], SS[i], EE[i]
        l, k, flag, marg = (z[i] for z in sel)
        l, k, flag = int(l), int(k), int(flag)
        if i % 97 == 0 and sol.select(x, e, L, K)[:3] != (l, k, flag) and marg > 1e-7:
            raise HarnessError("reference selections disagree")
        api.states += 1
        api.transitions += 1
        if marg < 1e-7:
            api.skipped += 1
            continue
        X, lk, fl = m.t_func(s, e, return_k=True)
        lk = tuple(int(z) for z in lk)
        api.outcome(flag, l, k)
        det = dict(par=p, point=a, l_max=L, k_max=K)
        if bool(fl) != bool(flag):
            raise Fail("flag", "error flag is %s with durations %s, expected %s with durations %s" % (fl, lk, flag, (l, k)), det)
        if lk != (l, k):
            raise Fail("durations", "durations are %s (flag %s), expected %s (flag %s)" % (lk, fl, (l, k), flag), det)
        if int(fl) != flag:
            raise Fail("flag", "error flag is %s, expected %s" % (fl, flag), det)
        R = sol.step(x, e, l, k)[ix]
        X = np.asarray(X, float)[jx]
        scale = max(1.0, np.max(np.abs(R)))
        if not fclose(X / scale, R / scale, 1e-6, 1e-6):
            raise Fail("state", "next state is %s, expected %s (durations %s)" % (X, R, lk), det)
        Xl, lk, fl = m.t_func(s, e, return_k=True, linear=True)
        R = sol.step(x, e, 0, 0)[ix]
        if tuple(int(z) for z in lk) != (0, 0) or fl or not fclose(np.asarray(Xl)[jx], R, 1e-6, 1e-6 * scale):
            raise Fail("linear", "linear transition: durations %s, flag %s, state %s, expected %s" % (lk, fl, Xl, R), det)
    api.traces += 1
