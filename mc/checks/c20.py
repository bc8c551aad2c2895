"""C20: variance decompositions are the shares of the shocks in the squared responses"""
import itertools

import numpy as np

from common import Fail, fclose, quiet, read, same
from refmodel import RefModel
from checks import c10
from checks.c10 import frame
from checks.c11 import TEXT

ID = "C20"
HOW = "the decomposition is computed by the real code for every sample of shocks and states of the lattice, horizon, selection of parametrizations and maxima, and compared with the shares in the squared differences between reference paths with and without the respective shock; if only some draws are used, one of all possible subsets has to reproduce the result; each call is repeated and the model has to be what it was"
ASSUMPTIONS = ["numerical agreement of shares up to 1e-6", "variables whose response to all shocks is below 1e-12 are not judged", "samples with a decision of the equilibrium selection within 1e-6 of its threshold are skipped and counted"]
M = {
    "func": (TEXT, [[0.4, 0.5, 0.3, 0.3, 0.2, 0.4], [0.2, 0.9, 0.6, 0.5, -0.5, 0.7], [0.3, 0.3, 0.4, 0.4, 0.7, 0.5]]),
    "nk": (c10.M["nk"], [{}, dict(kap=0.05, rho=0.2)]),
    "base": (c10.M["base"], [{}, dict(sig=0.8, rho=0.3)]),
}
LK = [None, (2, 5), (3, 12)]
HOR = {"quick": [1, 3], "thorough": [1, 2, 3, 4, 6, 9]}
BOUNDS = {
    t: "%d models x all non-empty selections of their %s parametrizations (also repeated) x linear/nonlinear x %d settings of maxima x horizons %s x all histories of shocks over two periods with two values for two shocks x 3 initial states (quick: every 5th, every 11th for several parametrizations) x given or simulated states; subsets: all sizes"
    % (len(M), "/".join(str(len(v[1])) for v in M.values()), len(LK), HOR[t])
    for t in HOR
}


def cases(tier):
    out = []
    for m in M:
        n = len(M[m][1])
        sel = [[i] for i in range(n)] + [[i, j] for i in range(n) for j in range(n)] + ([list(range(n))] if n > 2 else [])
        for s in sel:
            for lin in (0, 1):
                for lk in range(len(LK)) if tier == "thorough" or len(s) == 1 else [sum(s) % 3]:
                    for h in HOR[tier]:
                        out.append(dict(model=m, pars=s, linear=lin, lk=lk, horizon=h))
    return out


REFS, SOL, MOD = {}, {}, {}


def ref_of(m):
    if m not in REFS:
        REFS[m] = RefModel(M[m][0])
    return REFS[m]


def full(m, i):
    ref, p = ref_of(m), M[m][1][i]
    if isinstance(p, list):
        return np.array(p + [ref.calib[n] for n in ref.par_names[len(p):]], float)
    return np.array([float(p.get(n, ref.calib[n])) for n in ref.par_names])


def sol_of(m, i):
    if (m, i) not in SOL:
        ref = ref_of(m)
        SOL[m, i] = ref.solve(dict(zip(ref.par_names, full(m, i))))
    return SOL[m, i]


def fold(sol, x, e, h, lin, L, K):
    """state h periods ahead if e hits now; and whether a decision was close"""
    marg = np.inf
    ks = 0
    for t in range(h):
        l, k = 0, 0
        if not lin:
            l, k, _, mg = sol.select(x, e, L, K)
            marg = min(marg, mg)
        ks += k > 0
        x = sol.step(x, e, l, k)
        e = np.zeros_like(e)
    return x, marg, ks


def run(case, api):
    ref = ref_of(case["model"])
    if case["model"] not in MOD:
        MOD[case["model"]] = read(api, M[case["model"]][0])
    m = MOD[case["model"]]
    quiet(m.set_par, "calib")
    names = [str(v) for v in m.vv]
    shocks = [str(s) for s in ref.shocks]
    ne, n = len(shocks), len(names)
    lin, h = bool(case["linear"]), case["horizon"]
    lk = LK[case["lk"]]
    args = {} if lk is None else dict(l_max=lk[0], k_max=lk[1])
    L, K = (4, 17) if lk is None else (lk[0] + 1, lk[1])
    sols = [sol_of(case["model"], p) for p in case["pars"]]
    ix = [sols[0].names.index(v) for v in names]
    P = np.array([full(case["model"], p) for p in case["pars"]])
    base = np.array(m.par, float)
    lks0 = list(m.lks)
    T = 3
    quiet(m.load_data, frame(ref, np.zeros((T, len(ref.observables)))))
    binding = 0
    grid = list(itertools.product((0.0, 1.0, -2.0), itertools.product((-1.2, 0.7), repeat=4)))
    if api.tier == "quick":
        grid = grid[::11 if len(case["pars"]) > 1 else 5]
    for no, (x0, c) in enumerate(grid):
        E = np.empty((len(P), T - 1, ne))
        for i in range(len(P)):
            for t in range(T - 1):
                for s in range(ne):
                    E[i, t, s] = c[2 * t + s % 2] * (1 - 0.4 * (s > 1)) * (1 - 0.3 * i)
        if no % 5 == 2:
            E[:, 0, 0] = 0.0
        init = np.array([x0 * np.array([0.3, -0.4, 0.7, 0.2, -0.5, 0.6, 0.1, -0.2])[:n] * (1 + i) for i in range(len(P))])
        # states at which the shocks hit
        X = np.zeros((len(P), T, n))
        tie = False
        for i, sol in enumerate(sols):
            x = np.zeros(sol.n)
            x[ix] = init[i]
            X[i, 0] = init[i]
            for t in range(T - 1):
                x, mg, _ = fold(sol, x, E[i, t], 1, lin, L, K)
                tie |= mg < 1e-6
                X[i, t + 1] = x[ix]
        mode = no % 3
        d = dict(pars=P.copy(), resid=E.copy(), init=init.copy())
        if mode == 0:
            d["means"] = X.copy()
        elif mode == 1:
            # arbitrary given states are honoured
            X = X + 0.25 * (np.arange(X.size).reshape(X.shape) % 3 - 1)
            d["means"] = X.copy()
        sq = np.zeros((len(P), T - 1, ne, n))
        for i, sol in enumerate(sols):
            for t in range(T - 1):
                x = np.zeros(sol.n)
                x[ix] = X[i, t]
                void, mg, kv = fold(sol, x, np.zeros(ne), h, lin, L, K)
                tie |= mg < 1e-6
                for s in range(ne):
                    e = np.zeros(ne)
                    e[s] = E[i, t, s]
                    y, mg, kk = fold(sol, x, e, h, lin, L, K)
                    tie |= mg < 1e-6
                    binding += bool(kk or kv)
                    sq[i, t, s] = ((y - void)[ix]) ** 2
        if tie:
            api.skipped += 1
            continue
        sq = sq.reshape(-1, ne, n)
        d0 = {k: v.copy() for k, v in d.items()}
        N = len(sq)
        for ns in [None] + list(range(1, N + 1)):
            if ns is not None and no % 4 != ns % 4:
                continue
            kw = {} if ns is None else dict(nsamples=ns)
            vd = quiet(m.gfevd, d, horizon=h, linear=lin, verbose=False, **kw, **args)
            api.transitions += 1
            what = "%s at %s, %s shocks %s, states %s, horizon %d, nsamples %s" % (case["model"], case["pars"], "linear" if lin else "nonlinear", E.tolist(), "given" if mode < 2 else "simulated", h, ns)
            if [str(v) for v in vd.columns] != names or [str(v) for v in vd.index] != shocks:
                raise Fail("labels", "%s: labels %s x %s, expected %s x %s" % (what, list(vd.index), list(vd.columns), shocks, names))
            got = np.asarray(vd, float)
            hit = False
            near = None
            for sub in [range(N)] if ns is None else itertools.combinations(range(N), ns):
                g = sq[list(sub)].sum(0)
                tot = g.sum(0)
                jx = tot > 1e-12
                w = np.where(jx, g / np.where(jx, tot, 1), 0)
                near = w if near is None else near
                if fclose(got[:, jx], w[:, jx]):
                    hit = True
                    break
            if not hit:
                raise Fail("shares", "%s: shares are %s, expected %s%s" % (what, got.tolist(), near.tolist(), "" if ns is None else " (or those of any other subset)"))
            if not fclose(m.par, base) or list(m.lks) != lks0:
                raise Fail("parameters", "%s: the current parameters or maxima were changed" % what)
            for k in d0:
                if k not in d or not same(d[k], d0[k]):
                    raise Fail("argument", "%s: the given %s were altered" % (what, k))
            if set(d) != set(d0):
                raise Fail("argument", "%s: the given dictionary was altered" % what)
            if no % 6 == 0:
                if not same(np.asarray(quiet(m.gfevd, d, horizon=h, linear=lin, verbose=False, **kw, **args), float), got) :
                    raise Fail("repeat", "%s: repeating gives a different result" % what)
            api.states += N * ne
    api.traces += 1
    api.outcome(case["model"], lin, h, binding > 0)
