"""C13: extracted shocks reproduce the smoothed path and decompositions add up"""
import itertools

import numpy as np
import pandas as pd

from common import Fail, fclose, quiet, read, same
from refmodel import RefModel
from reffilter import RefFilter
from checks import c10
from checks.c10 import M, frame, datasets, ERR
from checks.c11 import TEXT, REF, NAMES

ID = "C13"
HOW = "linear: for every model, parametrization, data set of the lattice and measurement error, shocks are extracted by the real code and fed back into the real simulator; the path must equal the conditional means of the joint Gaussian distribution of the reference. Nonlinear: data generated by the reference model along every shock pattern are extracted and must be matched. Decompositions: every combination of samples, initial states and shock histories is decomposed; contributions must add up to the reference path and, where slack, be the separate responses. Every pattern of failing attempts is injected into the extraction. Sorting: every sign pattern"
ASSUMPTIONS = [
    "numerical agreement up to 1e-6 (1e-5 for smoothed paths)",
    "nonlinear extraction is iterative: data must be matched within 15 standard deviations of the measurement error (0.47 at data of size 2)",
    "the effect of a binding constraint has to be distributed over shocks in proportion to their contributions to the constraint in any one of the periods that are expected; which one is left open",
]
VAR = dict(c10.VAR)
NT = {"quick": 3, "thorough": 4}
PARS = [
    [0.4, 0.5, 0.3, 0.3, 0.2, 0.4],
    [0.2, 0.9, 0.6, 0.5, -0.5, 0.7],
    [0.3, 0.3, 0.4, 0.4, 0.7, 0.5],
]
LK = [None, (2, 5), (3, 12)]
BOUNDS = {
    t: "linear extraction: %d model/parameter points x 3 measurement errors x all data sets of %d periods with two values per observable, single and in samples of two; nonlinear: 3 parametrizations x all 16 patterns of two shocks (binding up to 4 periods); decompositions: all pairs and single ones of 3 parametrizations x 3 initial states x all 64 (samples of several and reduced maxima, quick: 16) histories of two shocks over 3 periods x linear/nonlinear x 3 settings of maxima; attempts: all patterns of failing attempts for up to 4 samples of up to 3 attempts; sorting: all 27 sign patterns of three contributions and orders"
    % (sum(map(len, VAR.values())), NT[t])
    for t in NT
}


def cases(tier):
    out = []
    for signs in itertools.product((-1.0, 0.0, 2.0), repeat=3):
        out.append(dict(kind="sort", v=list(signs)))
    for npar, ns in ((1, 1), (1, 2), (2, 1), (2, 2)):
        for natt in (1, 2, 3) if tier == "thorough" or npar * ns < 4 else (1, 2):
            for accept in (0, 1):
                for seed in (0, 7):
                    out.append(dict(kind="retry", npar=npar, ns=ns, natt=natt, accept=accept, seed=seed))
    for m in VAR:
        for p in VAR[m]:
            for r in range(3):
                out.append(dict(kind="lin", model=m, par=p, R=r))
    for s in ([0], [1], [2], [0, 1], [1, 2], [2, 0], [0, 1, 2]):
        for lin in (0, 1):
            for lk in range(3) if tier == "thorough" or len(s) < 3 else (0,):
                out.append(dict(kind="nhd", pars=s, linear=lin, lk=lk))
    for p in range(3):
        for c in itertools.product((-1.5, 0.7), (-0.5, 0.5), (-1.6, 1.0)):
            for z in (0.2,) if tier == "quick" else (0.2, -0.3):
                out.append(dict(kind="ens", par=p, shocks=list(c), z=z))
    return out


# ------------------------------------------------------------------------ sort
def run_sort(case, api):
    from pydsge import sort_nhd

    # several variables and periods, each with its own pattern
    v = case["v"]
    for perm in itertools.permutations(range(3)):
        base = [np.array([[v[i], -v[i], v[(i + 1) % 3]], [0.5 * v[i], 1, -1.5]]) for i in perm]
        for make in (lambda h: h.copy(), lambda h: pd.DataFrame(h, columns=list("abc"))):
            hd = [make(h) for h in base]
            lo, up = sort_nhd(hd)
            api.transitions += 1
            if len(lo) != 3 or len(up) != 3:
                raise Fail("sort", "not all contributions are returned")
            for parts, pos in ((lo, False), (up, True)):
                acc = np.zeros((2, 3))
                for h, b in zip(base, parts):
                    b = np.asarray(b, float)
                    part = np.where(h > 0, h, 0) if pos else np.where(h < 0, h, 0)
                    if b.shape != (2, 2, 3) or not fclose(b[1] - b[0], part):
                        raise Fail("sort", "sorted band of %s is %s" % (h.tolist(), b.tolist()))
                    if not fclose(b[0], acc):
                        raise Fail("sort", "bands are not stacked: starts at %s instead of %s" % (b[0].tolist(), acc.tolist()))
                    acc = b[1]
            if not fclose(np.asarray(lo[-1])[1] + np.asarray(up[-1])[1], sum(base)):
                raise Fail("sort", "sorted contributions do not add up")
            for h, b in zip(hd, base):
                if not same(np.asarray(h), b):
                    raise Fail("sort", "the given decomposition was altered")
    api.states += 1


# ---------------------------------------------------------------------- linear
def run_lin(case, api):
    text = M[case["model"]]
    ref = RefModel(text)
    m = read(api, text)
    p = case["par"]
    full = np.array([p.get(n, ref.calib[n]) for n in ref.par_names], float)
    base = np.array([ref.calib[n] for n in ref.par_names], float)
    quiet(m.set_par, full)
    sol = ref.solve(p)
    rf = RefFilter(ref, sol, p)
    ny = len(ref.observables)
    R = ERR[case["R"]][1](ny)
    if np.linalg.cond(rf.joint(2, R)[2]) > 1e8:
        api.skipped += 1
        return
    names = [str(v) for v in m.vv]
    vs = [v for v in ref.vars if v in names]
    jx = [names.index(v) for v in vs]
    ix = [rf.sol.names.index(v) for v in vs]
    for i, Y in enumerate(datasets(ny, NT[api.tier])):
        quiet(m.load_data, frame(ref, Y))
        if i == 0:
            quiet(m.create_filter, R=R, ftype="KF")
        par0 = np.array(m.par)
        # alternately: current parameters, a given vector, a sample
        mode = i % 3
        if mode == 0:
            e = quiet(m.extract, verbose=0)
        elif mode == 1:
            e = quiet(m.extract, sample=full, verbose=0)
        else:
            quiet(m.set_par, base)
            try:
                e = quiet(m.extract, sample=[base, full], verbose=0)
                if not fclose(m.par, base):
                    raise Fail("parameters", "extract changed the current parameters")
            finally:
                quiet(m.set_par, full)
        if not fclose(m.par, par0):
            raise Fail("parameters", "extract changed the current parameters")
        j = 1 if mode == 2 else 0
        if not fclose(np.asarray(e["pars"][j], float), full):
            raise Fail("parameters", "parameters of the extracted sample are %s" % e["pars"][j])
        eps = np.asarray(e["resid"][j], float)
        if eps.shape != (len(Y) - 1, len(ref.shocks)):
            raise Fail("shape", "extracted shocks have shape %s" % (eps.shape,))
        if mode == 2:
            e = {k: v[1:] for k, v in e.items()}
        X, _, fl = quiet(m.simulate, e, linear=True)
        E, V = rf.moments(Y, R, True)
        if not fclose(np.asarray(X)[0][:, jx], E[:, ix], 1e-5, 1e-5):
            raise Fail("smoothed path", "data %s: simulating the extracted shocks gives %s, but the smoothed states are %s" % (Y.tolist(), np.asarray(X)[0][:, jx].tolist(), E[:, ix].tolist()))
        obs = np.asarray(quiet(m.obs, np.asarray(X)[0]))
        want = E @ rf.Z.T + rf.c
        if not fclose(obs, want, 1e-5, 1e-5) or (case["R"] == 0 and not fclose(obs, Y, 1e-5, 1e-5)):
            raise Fail("data", "data %s: observables of the extracted path are %s, expected %s" % (Y.tolist(), obs.tolist(), want.tolist()))
        # shocks are those of the model (unit: the stated shock enters additively)
        for t in range(len(Y) - 1):
            x = E[t + 1] - rf.sol.T @ E[t] - rf.sol.R @ eps[t]
            if not fclose(x, 0 * x, 1e-5, 1e-5):
                raise Fail("shocks", "data %s: extracted shocks %s do not explain the path" % (Y.tolist(), eps.tolist()))
        api.states += len(Y)
        api.transitions += 2
        if i % 16 == 2:
            hd, mn = quiet(m.nhd, e, linear=True)
            if not fclose(sum(np.asarray(h) for h in hd)[:, jx], E[:, ix], 1e-5, 1e-5):
                raise Fail("decomposition", "contributions of extracted shocks do not add up to the smoothed path")
    api.traces += i + 1
    api.outcome(case["model"], np.round(E.sum(), 6))


# -------------------------------------------------------------- decompositions
def fullpar(p):
    par = dict(zip(NAMES, PARS[p]))
    return par, np.array([par.get(n, REF.calib[n]) for n in REF.par_names], float)


SOL = {}


def solution(p):
    if p not in SOL:
        SOL[p] = REF.solve(fullpar(p)[0])
    return SOL[p]


def run_nhd(case, api):
    m = read(api, TEXT)
    quiet(m.set_par, "calib")
    lin = bool(case["linear"])
    lk = LK[case["lk"]]
    L, K = (4, 17) if lk is None else (lk[0] + 1, lk[1])
    args = {} if lk is None else dict(l_max=lk[0], k_max=lk[1])
    names = [str(v) for v in m.vv]
    ix = None
    quiet(m.load_data, frame(REF, np.zeros((4, 2))))
    ne = 2
    binding = 0
    for x0 in (0.0, 1.0, -2.0):
        few = api.tier == "quick" and (len(case["pars"]) > 1 or case["lk"])
        for no, c in enumerate(itertools.product((-1.2, 0.6), repeat=4 if few else 6)):
            c = c + (0.6, -0.9) if few else c
            sample = []
            for n, p in enumerate(case["pars"]):
                eps = np.reshape(c, (3, 2)) * (1 - 0.3 * n)
                if no % 7 == 3:
                    eps[1] = 0
                init = x0 * np.array([0.3, -0.4, 0.7, 0.2])[:len(names)] * (1 + n)
                sample.append((fullpar(p)[1], eps, init))
            e = dict(pars=np.array([s[0] for s in sample]), resid=np.array([s[1] for s in sample]), init=np.array([s[2] for s in sample]))
            e0 = {k: v.copy() for k, v in e.items()}
            lks0 = list(m.lks)
            hd, mn = quiet(m.nhd, e, linear=lin, **args)
            api.transitions += 1
            for k in e:
                if not same(e[k], e0[k]):
                    raise Fail("argument", "nhd altered the given %s" % k)
            if not fclose(m.par, [REF.calib[n] for n in REF.par_names]) or list(m.lks) != lks0:
                raise Fail("parameters", "nhd changed the current parameters or maxima")
            if len(hd) != ne or [str(v) for v in mn.columns] != names or any([str(v) for v in h.columns] != names for h in hd):
                raise Fail("labels", "decomposition has labels %s, expected %s" % (list(mn.columns), names))
            H = np.array([np.asarray(h, float) for h in hd])
            # reference path, mean over samples
            tie, paths, slack = False, [], np.ones(len(sample), bool)
            seps = []
            for n, (p, (par, eps, init)) in enumerate(zip(case["pars"], sample)):
                sol = solution(p)
                if ix is None:
                    ix = [sol.names.index(v) for v in names]
                x = np.zeros(sol.n)
                x[ix] = init
                P = [x]
                sep = np.array([[x / ne] * 1 for s in range(ne)])
                for t in range(3):
                    if lin:
                        l, k, marg = 1, 0, 1
                    else:
                        l, k, fl, marg = sol.select(x, eps[t], L, K)
                    if marg < 1e-6:
                        tie = True
                        break
                    slack[n] &= k == 0
                    binding += k > 0
                    x = sol.step(x, eps[t], l, k)
                    P.append(x)
                    new = []
                    for s in range(ne):
                        es = np.zeros(ne)
                        es[s] = eps[t, s]
                        new.append(sol.T @ sep[s, -1] + sol.R @ es)
                    sep = np.concatenate((sep, np.array(new)[:, None]), 1)
                if tie:
                    break
                paths.append(P)
                seps.append(sep)
            if tie:
                api.skipped += 1
                continue
            want = np.mean(np.array(paths), 0)[:, ix]
            if not fclose(np.asarray(mn, float), want):
                raise Fail("path", "states of the decomposition are %s, expected %s" % (np.asarray(mn).tolist(), want.tolist()), repr((c, x0)))
            if not fclose(H.sum(0), want):
                raise Fail("decomposition", "contributions add up to %s, but the path is %s" % (H.sum(0).tolist(), want.tolist()), repr((c, x0)))
            if slack.all():
                ws = np.mean(np.array(seps), 0)[:, :, ix]
                if not fclose(H, ws):
                    raise Fail("contributions", "slack constraint: contributions %s are not the separate responses %s" % (H.tolist(), ws.tolist()), repr((c, x0)))
            elif len(sample) == 1:
                # everything beyond the affine part is a multiple of the constraint's effect
                sol = solution(case["pars"][0])
                eps = sample[0][1]
                for t in range(3):
                    x = np.zeros(sol.n)
                    x[ix] = want[t]
                    l, k, fl, marg = sol.select(x, eps[t], L, K)
                    c0 = sol.step(np.zeros(sol.n), np.zeros(ne), l, k)
                    sh = []
                    for s in range(ne):
                        es = np.zeros(ne)
                        es[s] = eps[t, s]
                        x = np.zeros(sol.n)
                        x[ix] = H[s, t]
                        d = (H[s, t + 1] - (sol.step(x, es, l, k) - c0)[ix])
                        a = d @ c0[ix] / (c0[ix] @ c0[ix]) if k else 0.0
                        if not fclose(d, a * c0[ix]):
                            raise Fail("contributions", "contribution of shock %d in period %d is not its response plus a share of the constraint's effect" % (s, t + 1), repr((c, x0)))
                        sh.append(a)
                    if k and abs(sum(sh) - 1) > 1e-6:
                        raise Fail("contributions", "shares of the constraint's effect add up to %s" % sum(sh))
                    if k:
                        # proportional to the contributions to the constraint in one of the periods expected now
                        con = []
                        for s in range(ne):
                            v = np.zeros(sol.n + ne + 1)
                            v[ix] = H[s, t]
                            v[sol.n + s] = eps[t, s]
                            con.append(sol._shadow_maps(l, k) @ v)
                        con = np.array(con)
                        ok = np.abs(con.sum(0)) > 1e-4
                        if ok.all() and not any(fclose(c / c.sum(), sh, 1e-5, 1e-5) for c in con.T):
                            raise Fail("shares", "shares %s of the effect of the constraint in period %d are not proportional to the contributions to the constraint (%s)" % (sh, t + 1, (con / con.sum(0)).T.tolist()), repr((c, x0)))
            api.states += 4
            if no % 16 == 0:
                X = np.asarray(quiet(m.simulate, e, linear=lin, **args)[0], float)
                if not fclose(X.mean(0), np.asarray(mn, float)):
                    raise Fail("path", "states of the decomposition are not those of the simulation")
    api.traces += 1
    api.outcome(case["linear"], binding > 0, str(round(float(want.sum()), 5)))


# ------------------------------------------------------------------- nonlinear
def run_ens(case, api):
    par, full = fullpar(case["par"])
    sol = solution(case["par"])
    rf = RefFilter(REF, sol, par)
    s = case["shocks"]
    E = 0.4 * np.array([[s[0], case["z"]], [s[1], -0.2], [s[2], 0.4], [-0.2, 0.1]])
    x = np.zeros(sol.n)
    Y, ks = [rf.Z @ x + rf.c], []
    for e in E:
        l, k, fl, marg = sol.select(x, e, 4, 17)
        if marg < 1e-6:
            api.skipped += 1
            return
        ks.append(k)
        x = sol.step(x, e, l, k)
        Y.append(rf.Z @ x + rf.c)
    Y = np.array(Y)
    m = read(api, TEXT)
    quiet(m.set_par, "calib")
    quiet(m.load_data, frame(REF, Y))
    r = 1e-3
    quiet(m.create_filter, R=np.eye(2) * r, N=100)
    e = quiet(m.extract, sample=full, verbose=0, seed=0)
    if not fclose(m.par, [REF.calib[n] for n in REF.par_names]):
        raise Fail("parameters", "extract changed the current parameters")
    X, (L, K), fl = quiet(m.simulate, e)
    quiet(m.set_par, full)
    obs = np.asarray(quiet(m.obs, np.asarray(X)[0]), float)
    if obs.shape != Y.shape or not np.all(np.abs(obs - Y) < 15 * r ** 0.5):
        raise Fail("data", "observables of the extracted path are %s, the data %s" % (obs.tolist(), Y.tolist()))
    if np.any(fl) or np.any(np.asarray(e["flags"])):
        raise Fail("flag", "extraction from data generated by the model is flagged")
    # the same when the parameters are set
    e2 = quiet(m.extract, verbose=0, seed=0)
    if not fclose(np.asarray(e2["resid"][0], float), np.asarray(e["resid"][0], float)) or not fclose(e2["init"][0], e["init"][0]):
        raise Fail("parameters", "extraction at given parameters differs from that at the current parameters")
    # own path of the extracted shocks
    names = [str(v) for v in m.vv]
    ix = [sol.names.index(v) for v in names]
    x = np.zeros(sol.n)
    x[ix] = np.asarray(e["init"][0], float)
    for t, ep in enumerate(np.asarray(e["resid"][0], float)):
        l, k, f2, marg = sol.select(x, ep, 4, 17)
        if marg < 1e-6:
            api.skipped += 1
            return
        x = sol.step(x, ep, l, k)
        if not fclose(np.asarray(X)[0][t + 1], x[ix]):
            raise Fail("path", "simulation of extracted shocks differs from the reference in period %d" % (t + 1))
    hd, mn = quiet(m.nhd, e)
    if not fclose(sum(np.asarray(h, float) for h in hd), np.asarray(X)[0]):
        raise Fail("decomposition", "contributions of extracted shocks do not add up to the simulated path")
    api.states += len(Y)
    api.transitions += 3
    api.traces += 1
    api.outcome(case["par"], ks)


# -------------------------------------------------------------------- attempts
def run_retry(case, api):
    import econsieve
    from harness import HarnessError

    cls = econsieve.TEnKF
    npar, ns, natt, accept = case["npar"], case["ns"], case["natt"], case["accept"]
    Y = np.array([[0.3, -0.2], [0.1, 0.2], [0.2, 0.1]])
    m = read(api, TEXT)
    quiet(m.set_par, "calib")
    quiet(m.load_data, frame(REF, Y))
    quiet(m.create_filter, R=np.eye(2) * 1e-2, N=12)
    pars = [fullpar(p)[1] for p in range(npar)]
    p0 = np.array(m.par)
    jobs = [p for p in range(npar) for _ in range(ns)]
    old = cls.npas
    for plan in itertools.product(range(natt + 1), repeat=len(jobs)):
        calls = []
        script = [(j, a, a >= f) for j, f in enumerate(plan) for a in range(min(f + 1, natt))]

        def stub(self, func=None, X=None, init_states=None, seed=0, **k):
            n = len(calls)
            calls.append((np.array(m.par), seed, np.shape(X)))
            if n < len(script) and not script[n][2]:
                raise (ValueError, np.linalg.LinAlgError)[n % 2]("planned")
            init = np.full(np.shape(init_states)[-1], 1.0 + n)
            return init, np.full((1, len(Y) - 1, 2), 10.0 + n), 0

        what = "failures of attempts %s, at most %d attempts" % (plan, natt)
        cls.npas = stub
        try:
            got = quiet(m.extract, sample=pars, nsamples=ns, nattemps=natt, accept_failure=bool(accept), verbose=0, seed=case["seed"])
        except Exception as e:
            got = e
        finally:
            cls.npas = old
        if not calls:
            raise HarnessError("extraction does not use the filter's npas")
        lost = [j for j, f in enumerate(plan) if f == natt]
        if not fclose(m.par, p0):
            raise Fail("parameters", "%s: extract changed the current parameters" % what)
        if len(lost) == len(jobs) and accept:
            api.skipped += 1
            continue  # nothing to return
        if lost and not accept:
            if not isinstance(got, Exception):
                raise Fail("attempts", "%s: no error is raised" % what)
            script = [s for s in script if s[0] <= lost[0]]
        elif isinstance(got, Exception):
            raise Fail("attempts", "%s: raised %r" % (what, got))
        if len(calls) != len(script):
            raise Fail("attempts", "%s: %d attempts were made, expected %d" % (what, len(calls), len(script)))
        seeds = {}
        for (p, s, shp), (j, a, ok) in zip(calls, script):
            if not fclose(p, pars[jobs[j]]):
                raise Fail("parameters", "%s: attempt %d of sample %d was made at other parameters" % (what, a, j))
            seeds.setdefault(j, []).append(s)
        for j, s in seeds.items():
            if len(set(s)) < len(s):
                raise Fail("seed", "%s: sample %d is repeated with the same seed: %s" % (what, j, s))
        for p in range(npar):
            s = [seeds[j][0] for j in seeds if jobs[j] == p]
            if len(set(s)) < len(s):
                raise Fail("seed", "%s: draws at the same parameters use the same seed: %s" % (what, s))
        if not isinstance(got, Exception):
            keep = [n for n, s in enumerate(script) if s[2]]
            want = [jobs[script[n][0]] for n in keep]
            if len(got["pars"]) != len(keep) or not fclose(np.asarray(got["pars"], float), [pars[w] for w in want]):
                raise Fail("attempts", "%s: extracted parameters %s" % (what, np.asarray(got["pars"]).tolist()))
            for i, n in enumerate(keep):
                if not np.all(np.asarray(got["resid"][i], float) == 10.0 + n) or not np.all(np.asarray(got["init"][i], float) == 1.0 + n):
                    raise Fail("attempts", "%s: result of sample %d is not that of its successful attempt" % (what, i))
        api.states += 1
        api.transitions += len(calls)
        api.outcome(bool(lost), accept)
    api.traces += 1


def run(case, api):
    {"retry": run_retry, "sort": run_sort, "lin": run_lin, "nhd": run_nhd, "ens": run_ens}[case["kind"]](case, api)
