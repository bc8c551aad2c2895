"""C05: simulations are the composition of one-period transitions with correct timing"""
import itertools

import numpy as np

from common import Fail, cols, fclose, impl_state, quiet, read
from refmodel import RefModel
from checks.c01 import build
from checks import c04

ID = "C05"
HOW = "every shock schedule, notation and option is executed on the real simulators and compared, period by period, with a fold of the reference transition (durations reported by the code must be admissible in every period)"
ASSUMPTIONS = [
    "schedules that name the same shock twice in one period are not part of the alphabet",
    "in periods without new shocks both continuing the announced durations and re-selecting them are accepted unless force_init_equil=False",
    "trajectories are compared until the first period with a decision value within 1e-7 of the bound",
]
PRIOR = "estimation:\n  prior:\n    sig: [0.5, 0.01, 3, normal, 0.5, 0.1]\n    rho: [None, 0.01, 0.99, beta, 0.6, 0.1]\n"
TRAP2 = c04.M["trap2"].replace("    rho: .9", "    rho: .2").replace("    b: .5", "    b: .8")
MODELS = {
    "nk": c04.M["nk"] + PRIOR,
    "trap2": TRAP2 + PRIOR,
    "hybrid": c04.M["hybrid"] + PRIOR,
    "asset": c04.M["asset"],
}
VEC = {
    "nk": [dict(), dict(phi=2.5, rho=0.3, kap=0.3), dict(x_bar=-0.4, sig=0.8)],
    "trap2": [dict(), dict(rho=0.4, x_bar=-0.5), dict(kap=0.3)],
    "hybrid": [dict(), dict(rho=0.2, g=-0.3), dict(x_bar=-0.2, sig=0.9)],
    "asset": [dict(), dict(rho=0.2, phi_pi=2.2), dict(elb_level=0.7, sigma=0.9)],
}
SIZES = {"quick": (-6.0, 2.0), "thorough": (-6.0, -1.5, 2.0)}
NPER = {"quick": 3, "thorough": 4}
BOUNDS = {
    t: "%d models; all schedules that put no shock, one of two shocks with size in %s, or both in each of the first %d periods (horizon %d); x options of irfs (default, linear, force_init_equil, set_k) ; all notations; simulate: the same schedules x initial states x masks x operations x parameters" % (len(MODELS), SIZES[t], NPER[t], NPER[t] + 3)
    for t in SIZES
}


def schedules(tier, shocks=(0, 1)):
    one = [[]] + [[(i, s)] for i in shocks for s in SIZES[tier]] + [[(shocks[0], SIZES[tier][0]), (shocks[1], -SIZES[tier][0] / 3)]]
    return [list(s) for s in itertools.product(one, repeat=NPER[tier])]


OPTS = {
    "default": {},
    "linear": dict(linear=True),
    "noforce": dict(force_init_equil=False),
    "force": dict(force_init_equil=True),
}


def cases(tier):
    out = []
    sch = schedules(tier)
    n = 12 if tier == "quick" else 48
    for m in MODELS:
        for o in OPTS:
            for i in range(n):
                out.append(dict(kind="irfs", model=m, opt=o, sched=sch[i::n]))
        if m == "asset":
            continue  # more than two shocks
        out.append(dict(kind="notation", model=m))
        for st in range(4):
            out.append(dict(kind="state", model=m, st=st))
        out.append(dict(kind="pars", model=m))
        for lin in (False, True):
            for mk in ("none", "keep", "zero", "double", "add", "nanfirst", "repl"):
                for pv in range(3):
                    out.append(dict(kind="simulate", model=m, linear=lin, mask=mk, pv=pv))
        out.append(dict(kind="route", model=m))
        out.append(dict(kind="setk", model=m))
    return out


class M:
    def __init__(self, api, name):
        self.text = MODELS[name]
        self.ref = RefModel(self.text)
        self.m = read(api, self.text)
        quiet(self.m.set_par, None)
        self.names = [str(v) for v in self.m.vv]
        self.jx = [self.names.index(v) for v in self.ref.vars]
        self.sols = {}

    def sol(self, p):
        k = repr(sorted(p.items()))
        if k not in self.sols:
            self.sols[k] = self.ref.solve(p)
        return self.sols[k]

    def par(self, p):
        return np.array([float(p.get(n, self.ref.calib[n])) for n in self.ref.par_names])


def fold(api, M_, p, x, E, X, L, K, flag, mode, what, lmax=3, kmax=17, setk=None):
    """check the trajectory X[t], durations L[t], K[t] for shocks E[t] from reference state x.
    mode: 'linear', 'select' (always re-select), 'either', 'set'"""
    sol = M_.sol(p)
    ix = [sol.names.index(v) for v in M_.ref.vars]
    must = may = False
    prev = (0, 0)
    for t in range(len(E)):
        api.transitions += 1
        got = None if np.isnan(L[t]) or np.isnan(K[t]) else (int(L[t]), int(K[t]))
        if got is None:
            raise Fail("durations", "%s: durations in period %d are not numbers" % (what, t))
        if mode == "linear":
            allowed = {(0, 0)}
        elif mode == "set":
            l, k = setk
            l, k = (l - t, k) if t <= l else (0, max(k + l - t, 0))
            # an unconstrained period may carry any announced l
            allowed = {(l, k)} if k else {(j, 0) for j in range(lmax + 1)}
        else:
            l, k, f, marg = sol.select(x, E[t], lmax, kmax)
            if marg < 1e-7:
                api.skipped += 1
                return None
            allowed = {(l, k)}
            if mode == "either" and t and not np.any(E[t]):
                pl, pk = prev
                allowed.add((pl - 1, pk) if pl else (0, max(pk - 1, 0)))
                may |= bool(f)
            else:
                must |= bool(f)
        if got not in allowed:
            raise Fail("durations", "%s: durations in period %d are %s, expected %s" % (what, t, got, sorted(allowed)))
        x = sol.step(x, E[t], *got)
        prev = got
        R = x[ix]
        scale = max(1.0, np.max(np.abs(R)))
        if not fclose(np.asarray(X[t])[M_.jx] / scale, R / scale, 1e-6, 1e-6):
            raise Fail("path", "%s: state in period %d is %s, expected %s" % (what, t, dict(zip(M_.ref.vars, np.asarray(X[t])[M_.jx])), dict(zip(M_.ref.vars, R))))
    flag = bool(np.any(flag))
    if (must and not flag) or (flag and not (must or may)):
        raise Fail("flag", "%s: error flag is %s although %s" % (what, flag, "no equilibrium exists in some period" if must else "an equilibrium exists in each period"))
    api.outcome(bool(must), tuple(int(z) for z in K))
    return x


def vecs(ref, sched, T):
    E = np.zeros((T, len(ref.shocks)))
    for t, s in enumerate(sched):
        for i, v in s:
            E[t, i] = v
    return E


def to_list(ref, sched):
    return [(ref.shocks[i], v, t) for t, s in enumerate(sched) for i, v in s]


def run(case, api):
    mm = M(api, case["model"])
    m, ref = mm.m, mm.ref
    z = np.zeros(mm.sol({}).n)
    T = NPER[api.tier] + 3
    before = m.get_par().copy()
    globals()["run_" + case["kind"]](case, api, mm, m, ref, z, T)
    if not np.array_equal(before, m.get_par()):
        raise Fail("sideeffect", "simulation changed the current parameters from %s to %s" % (before, m.get_par()))
    api.traces += 1


def irf(api, mm, sl, T, E, x, what, mode="either", p={}, **kw):
    X, LK, flag = quiet(mm.m.irfs, sl, T=T, verbose=False, **kw)
    api.states += 1
    if [str(c) for c in X.columns] != mm.names or X.shape != (T, len(mm.names)) or np.shape(LK) != (2, T):
        raise Fail("shape", "%s: shapes %s, %s" % (what, X.shape, np.shape(LK)))
    return fold(api, mm, p, x, E, X.values, LK[0], LK[1], flag, mode, what, setk=kw.get("set_k"))


def run_irfs(case, api, mm, m, ref, z, T):
    mode = {"default": "either", "linear": "linear", "noforce": "select", "force": "either"}[case["opt"]]
    for s in case["sched"]:
        irf(api, mm, to_list(ref, s), T, vecs(ref, s, T), z, "irfs(%s, %s)" % (to_list(ref, s), case["opt"]), mode, **OPTS[case["opt"]])


def run_notation(case, api, mm, m, ref, z, T):
    a, b = ref.shocks
    base = [
        (a, [(a, 1, 0)]),
        ([a], [(a, 1, 0)]),
        ((a, -5.0), [(a, -5.0, 0)]),
        ([(a, -5.0)], [(a, -5.0, 0)]),
        ((a, -5.0, 2), [(a, -5.0, 2)]),
        ([(a, -5.0, 2)], [(a, -5.0, 2)]),
        ([a, b], [(a, 1, 0), (b, 1, 0)]),
        ([b, a], [(a, 1, 0), (b, 1, 0)]),
        ([(a, -5.0), b], [(a, -5.0, 0), (b, 1, 0)]),
        ([b, (a, -5.0, 1)], [(a, -5.0, 1), (b, 1, 0)]),
        ([(a, -5.0, 1), (b, 2)], [(a, -5.0, 1), (b, 2, 0)]),
        ([(b, 2), (a, -5.0, 1)], [(a, -5.0, 1), (b, 2, 0)]),
        ([(a, -5, 1), (a, 3, 2), (b, 2, 0), (b, -2, 4)], [(a, -5.0, 1), (a, 3, 2), (b, 2, 0), (b, -2, 4)]),
        ([], []),
        ((a, 0.0), []),
        ((a, -5.0, 99), []),
    ]
    for form, mean in base:
        for lin in (False, True):
            E = np.zeros((T, 2))
            for s, v, t in mean:
                E[t, ref.shocks.index(s)] = v
            import copy

            irf(api, mm, copy.deepcopy(form), T, E, z, "irfs(%r)" % (form,), "linear" if lin else "either", linear=lin)
    for H in (1, 2, 7, 30, 41):
        E = np.zeros((H, 2))
        E[0, 0] = -5
        irf(api, mm, (a, -5.0), H, E, z, "irfs(T=%d)" % H)
    X, LK, flag = quiet(m.irfs, (a, -5.0), verbose=False)
    if len(X) != 30:
        raise Fail("horizon", "default horizon is %d instead of 30" % len(X))
    e = None
    try:
        quiet(m.irfs, ("nonexistent", 1.0), verbose=False)
    except Exception as ex:
        e = ex
    if e is None:
        raise Fail("unknown shock", "irfs accepted a shock that does not exist")


def run_setk(case, api, mm, m, ref, z, T):
    for l, k in itertools.product(range(4), range(6)):
        for s, t in ((-2.0, 0), (1.0, 1)):
            E = np.zeros((T + 5, 2))
            E[t, 0] = s
            irf(api, mm, (ref.shocks[0], s, t), T + 5, E, z, "irfs(%s, set_k=%s)" % ((s, t), (l, k)), "set", set_k=(l, k)) if not (l == k == 0 or (k == 0)) else None
    for sk in ((0, 18), (4, 1), (9, 2)):
        e = None
        try:
            quiet(m.irfs, (ref.shocks[0], 1.0), set_k=sk, verbose=False)
        except Exception as ex:
            e = ex
        if e is None:
            raise Fail("set_k", "set_k=%s beyond the maxima was accepted" % (sk,))
    # maxima that come with the parameters
    E = np.zeros((T, 2))
    E[0, 0] = -2
    for lm, km in ((2, 5), (5, 9), (2, 21)):
        for sk in ((0, 5), (0, 6), (3, 2), (4, 2), (6, 9), (7, 1), (2, 21), (0, 22), (0, 21), (1, 10)):
            kw = dict(pars=mm.par({}), l_max=lm, k_max=km, set_k=sk)
            if sk[0] <= lm + 1 and sk[1] <= km:
                irf(api, mm, (ref.shocks[0], -2.0, 0), T, E, z, "irfs(set_k=%s, l_max=%s, k_max=%s)" % (sk, lm, km), "set", **kw)
                continue
            try:
                quiet(m.irfs, (ref.shocks[0], 1.0), verbose=False, T=2, **kw)
            except Exception:
                continue
            raise Fail("set_k", "set_k=%s was accepted with l_max=%s, k_max=%s" % (sk, lm, km))
    # in the transition function
    for sk in ((0, 18), (4, 1), (4, 18), (9, 2), (3, 40), 18):
        try:
            quiet(m.t_func, np.zeros(len(mm.names)), set_k=sk)
        except Exception:
            continue
        raise Fail("set_k", "the transition function accepts set_k=%s beyond the maxima" % (sk,))


def run_state(case, api, mm, m, ref, z, T):
    # initial states: reached by shocks
    sol = mm.sol({})
    i, t0 = case["st"] % 2, 1 + 2 * (case["st"] // 2)
    for size in (-4.0, 3.0):
        x, s = z, np.zeros(len(mm.names))
        for t in range(t0):
            e = np.eye(2)[i] * (size if t == 0 else 0)
            x = sol.step(x, e, 0, 0)
            s = np.asarray(quiet(m.t_func, s, e, linear=True)[0])
        keep = s.copy()
        for sl in ([], [(0, -3.0, 0)], [(1, 2.0, 1)], [(0, -6.0, 2), (1, 1.0, 0)]):
            E = np.zeros((T, 2))
            for j, v, t in sl:
                E[t, j] = v
            for mode, kw in (("either", {}), ("linear", dict(linear=True)), ("select", dict(force_init_equil=False))):
                irf(api, mm, [(ref.shocks[j], v, t) for j, v, t in sl], T, E, x, "irfs(%s, state after %s)" % (sl, (i, t0, size)), mode, state=s, **kw)
            if not np.array_equal(s, keep):
                raise Fail("sideeffect", "irfs changed the given initial state")


def run_pars(case, api, mm, m, ref, z, T):
    V = VEC[case["model"]]
    sl = [(ref.shocks[0], -5.0, 1), (ref.shocks[1], 2.0, 0)]
    E = np.zeros((T, 2))
    E[1, 0], E[0, 1] = -5, 2
    for order in itertools.permutations(range(len(V))):
        pars = np.array([mm.par(V[i]) for i in order])
        keep = pars.copy()
        for lin in (False, True):
            X, LK, flags = quiet(m.irfs, sl, pars=pars, T=T, linear=lin, verbose=False)
            X, LK, flags = np.asarray(X), np.asarray(LK), np.asarray(flags)
            api.states += len(V)
            if X.shape != (len(V), T, len(mm.names)) or flags.shape != (len(V),):
                raise Fail("shape", "batch irfs returned shapes %s, %s" % (X.shape, flags.shape))
            LK = LK.reshape(2, len(V), T)
            for j, i in enumerate(order):
                fold(api, mm, V[i], z, E, X[j], LK[0, j], LK[1, j], flags[j], "linear" if lin else "either", "irfs(pars=%s)[%d]" % (V[i], j))
        if not np.array_equal(pars, keep):
            raise Fail("sideeffect", "irfs changed the given parameters")
    for i in range(len(V)):
        irf(api, mm, sl, T, E, z, "irfs(pars=%s)" % V[i], p=V[i], pars=mm.par(V[i]))
        q = {k: v for k, v in V[i].items() if k in ("sig", "rho")}
        irf(api, mm, sl, T, E, z, "irfs(estimated pars=%s)" % q, p=q, pars=mm.par(q)[[ref.par_names.index(n) for n in ("sig", "rho")]])


def run_simulate(case, api, mm, m, ref, z, T):
    V = VEC[case["model"]]
    sched = schedules("quick")[:: 3 if case["pv"] else 1]
    if case["mask"] not in ("none", "repl") and not case["pv"]:
        sched = sched[::2]
    ne = len(ref.shocks)
    H = NPER["quick"] + 1
    E0 = np.array([vecs(ref, s, H) for s in sched])
    p = V[case["pv"]]
    sol = mm.sol(p)
    # initial states: zero and one reached by a shock (at these parameters)
    quiet(m.set_par, mm.par(p))
    s1 = np.asarray(quiet(m.t_func, np.zeros(len(mm.names)), np.array([-2.0, 0.5]), linear=True)[0])
    quiet(m.set_par, mm.par({}))
    x1 = sol.step(z, np.array([-2.0, 0.5]), 0, 0)
    inits = [(s1, x1) if i % 2 else (np.zeros(len(mm.names)), z) for i in range(len(sched))]
    mask, op = None, None
    f = lambda E: E
    if case["mask"] != "none":
        mask = np.full((H, ne), np.nan)
    if case["mask"] == "zero":
        mask[:, 1] = 0.0
        f = lambda E: np.where(np.arange(ne) == 1, 0.0, E)
    elif case["mask"] == "double":
        mask[1:, 0] = 2.0
        f = lambda E: np.where((np.arange(ne) == 0) & (np.arange(H)[:, None] >= 1), 2 * E, E)
    elif case["mask"] == "add":
        mask[0, 0], mask[2, 1] = -1.5, 0.7
        op = np.add
        D = np.where(np.isnan(mask), 0.0, mask)
        f = lambda E: E + D
    elif case["mask"] == "nanfirst":
        mask[1:] = 0.0
        f = lambda E: np.where(np.arange(H)[:, None] >= 1, 0.0, E)
    elif case["mask"] == "repl":
        mask[0, :], mask[2, 0] = -3.0, 1.0
        op = lambda a, b: a
        W = mask.copy()
        f = lambda E: np.where(np.isnan(W), E, W)
    pars = [mm.par(p) for _ in sched]
    kw = {}
    if mask is not None:
        kw["mask"] = mask
    if op is not None:
        kw["operation"] = op
    keepm = None if mask is None else mask.copy()
    src = dict(pars=pars, resid=E0, init=[i[0] for i in inits])
    keep = E0.copy()
    X, LK, flags = quiet(m.simulate, src, linear=case["linear"], **kw)
    X, LK, flags = np.asarray(X), np.asarray(LK), np.asarray(flags)
    api.states += len(sched)
    if X.shape != (len(sched), H + 1, len(mm.names)) or LK.shape != (2, len(sched), H) or flags.shape != (len(sched),):
        raise Fail("shape", "simulate returned shapes %s, %s, %s" % (X.shape, LK.shape, flags.shape))
    if not np.array_equal(E0, keep) or (mask is not None and not np.array_equal(mask, keepm, equal_nan=True)):
        raise Fail("sideeffect", "simulate changed the given shocks or mask")
    for i in range(len(sched)):
        if not fclose(X[i, 0], inits[i][0]):
            raise Fail("init", "the first period of a simulation is %s instead of the initial state %s" % (X[i, 0], inits[i][0]))
        fold(api, mm, p, inits[i][1], f(E0[i]), X[i, 1:], LK[0, i], LK[1, i], flags[i], "linear" if case["linear"] else "select", "simulate(%s, mask=%s, pars=%s)" % (sched[i], case["mask"], p))


def run_route(case, api, mm, m, ref, z, T):
    """source dict, explicit arguments and combinations of both; different parameters in one batch"""
    V = VEC[case["model"]]
    H = 4
    res = [vecs(ref, s, H) for s in ([[(0, -5.0)], [], [(1, 2.0)]], [[], [(0, -5.0), (1, 1.0)]], [[(1, -4.0)], [(0, 2.0)]])]
    oth = [vecs(ref, s, H) for s in ([[(1, 1.0)]], [[], [], [(0, -3.0)]], [[(0, -4.0)], [(0, 2.0)]])]
    init = [np.zeros(len(mm.names))] * 3
    pars = [mm.par(p) for p in V]
    for order in itertools.permutations(range(3)):
        P, R, O = [pars[i] for i in order], [res[i] for i in order], [oth[i] for i in order]
        zero = [pars[0]] * 3
        src = dict(pars=P, resid=np.array(R), init=np.array(init))
        for what, args, PP, RR in (
            ("source", dict(source=src), order, R),
            ("explicit", dict(pars=P, resid=np.array(R), init=np.array(init)), order, R),
            ("resid overrides", dict(source=src, resid=np.array(O)), order, O),
            ("pars override", dict(source=src, pars=zero), (0, 0, 0), R),
            ("init overrides", dict(source=dict(src, init=np.array(init) + 1.0), init=np.array(init)), order, R),
        ):
            for lin in (False, True):
                X, LK, flags = quiet(m.simulate, linear=lin, **args)
                X, LK = np.asarray(X), np.asarray(LK)
                api.states += 3
                for j in range(3):
                    fold(api, mm, V[PP[j]], z, RR[j], X[j, 1:], LK[0, j], LK[1, j], flags[j], "linear" if lin else "select", "simulate via %s [%d]" % (what, j))
