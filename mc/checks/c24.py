"""C24: calls leave their arguments alone, and what they return belongs to the caller"""
import copy
import itertools
import os

import emcee
import numpy as np
import pandas as pd

from common import Fail, fclose, forked, quiet
from checks import c22
from checks.c10 import frame
from checks.c22 import agree, attempt, dynamics, make, val, REF

ID = "C24"
HOW = "every operation is executed in every state of preparation with every layout of its arguments (own memory, column-major, strided views, read-only); arguments have to be unaltered and results must not depend on the layout; then (forked) the arguments, the results, or neither are overwritten by the caller, each is followed by every observation of the model, and by every other operation, whose results have to be the same as if nothing was overwritten; results have to survive all later operations"
ASSUMPTIONS = ["numerical agreement up to 1e-6", "data frames returned by load_data, chains held in memory and attributes of the model are the model's own and are not overwritten"]
SETUPS = ["est:set", "est:KF", "est:EnKF", "asset:KF", "nk:set", "est:KF:mcmc"]
LAYOUTS = ["C", "F", "strided", "readonly"]
BOUNDS = {}
DATA = c22.DATA


def lay(a, layout):
    """the same numbers in another layout of memory"""
    a = np.array(a, float)
    if layout == "C":
        return a
    if layout == "F":
        return np.asfortranarray(a)
    if layout == "strided":
        b = np.full(tuple(2 * n for n in a.shape), -55.0)
        b[tuple(slice(1, None, 2) for _ in a.shape)] = a
        return b[tuple(slice(1, None, 2) for _ in a.shape)]
    a.flags.writeable = False
    return a


def scribble(x):
    """overwrite everything the caller can reach"""
    if isinstance(x, pd.DataFrame):
        for j in range(x.shape[1]):
            x.isetitem(j, np.full(len(x), -77.0))
        return
    if isinstance(x, pd.Series):
        x[:] = -77.0
        return
    if isinstance(x, np.ndarray):
        if x.dtype == object:
            for v in x.ravel():
                scribble(v)
        if x.flags.writeable:
            x[...] = -77 if x.dtype.kind in "fiu" else (True if x.dtype.kind == "b" else None if x.dtype == object else "?")
    elif isinstance(x, dict):
        for k in x:
            scribble(x[k])
            x[k] = -77.0
    elif isinstance(x, list):
        for i, v in enumerate(x):
            scribble(v)
            x[i] = -77.0
    elif isinstance(x, tuple):
        for v in x:
            scribble(v)


def base(x):
    """overwrite the memory behind views of data frames as well"""
    if isinstance(x, pd.DataFrame):
        v = x.to_numpy()
        if v.flags.writeable and v.dtype.kind == "f":
            v[...] = -77.0
    scribble(x)


def ops(name, est, chain):
    """name -> (arguments given a layout, function of model and arguments)"""
    ref = REF[name]
    sh = ref.shocks
    ny = len(ref.observables)
    some = {"est": "rho", "asset": "rho_u", "nk": "rho"}[name]
    O = {}

    def pars(m, n=2):
        p = np.array([m.get_par()] * n, float)
        p[1:, ref.par_names.index(some)] *= 0.9
        return p

    x = lambda m: 0.2 * np.linspace(-1, 1, len(m.vv))
    q = lambda m: 0.6 * np.linspace(-2, 1, m.dimq)
    e = lambda m: -2.0 * np.linspace(1, 0.2, len(m.shocks))
    X = lambda m: np.random.RandomState(1).randn(2, 4, len(m.vv))
    S = lambda m: 1.5 * np.random.RandomState(2).randn(2, len(DATA) - 1, len(sh))
    O["t_func"] = lambda m, l: [lay(x(m), l), lay(e(m), l)], lambda m, a: m.t_func(*a, return_k=True)
    O["t_func obs"] = lambda m, l: [lay(x(m), l), lay(e(m), l)], lambda m, a: m.t_func(*a, get_obs=True)
    O["obs"] = lambda m, l: [lay(x(m), l)], lambda m, a: m.obs(*a)
    O["obs many"] = lambda m, l: [lay(X(m), l)], lambda m, a: m.obs(*a)
    O["obs covs"] = lambda m, l: [lay(X(m)[0], l), lay(np.array([np.eye(len(m.vv)) * (1 + t) for t in range(4)]), l)], lambda m, a: m.obs(a[0], covs=a[1])
    O["obs pars"] = lambda m, l: [lay(X(m), l), lay(pars(m), l)], lambda m, a: m.obs(a[0], pars=a[1])
    O["irfs"] = lambda m, l: [[(sh[0], -4.0), sh[1], (sh[1], 2.5, 2)]], lambda m, a: m.irfs(a[0], T=6, verbose=False)
    O["irfs lists"] = lambda m, l: [[[sh[0], -4.0, 1], [sh[1], 2.0]]], lambda m, a: m.irfs(a[0], T=5, verbose=False)
    O["irfs pars"] = lambda m, l: [[(sh[0], -3.0, 1)], lay(pars(m), l), lay(x(m), l)], lambda m, a: m.irfs(a[0], pars=a[1], state=a[2], T=5, verbose=False)
    O["simulate"] = lambda m, l: [dict(pars=lay(pars(m), l), resid=lay(S(m), l), init=lay(X(m)[:, 0], l))], lambda m, a: m.simulate(a[0])
    mask = lambda m: np.where(np.arange(S(m)[0].size).reshape(S(m)[0].shape) % 3, np.nan, 0.5)
    O["simulate mask"] = lambda m, l: [lay(pars(m), l), lay(S(m), l), lay(X(m)[:, 0], l), lay(mask(m), l)], lambda m, a: m.simulate(pars=a[0], resid=a[1], init=a[2], mask=a[3])
    O["simulate frame"] = lambda m, l: [dict(pars=lay(pars(m), l), resid=lay(S(m), l), init=lay(X(m)[:, 0], l)), pd.DataFrame(lay(mask(m), l))], lambda m, a: m.simulate(a[0], mask=a[1], operation=np.add, linear=True)
    O["traj"] = lambda m, l: [lay(q(m), l)], lambda m, a: m.traj(*a, verbose=False)
    O["k_map"] = lambda m, l: [lay(q(m), l)], lambda m, a: m.k_map(*a, verbose=False)
    O["shock2state"] = lambda m, l: [[sh[0], 0.4]], lambda m, a: m.shock2state(*a)
    O["vix"] = lambda m, l: [list(ref.vars[:2])], lambda m, a: m.vix(*a)
    O["get_par"] = lambda m, l: [], lambda m, a: m.get_par()
    O["get_par dict"] = lambda m, l: [], lambda m, a: m.get_par("calib", asdict=True)
    O["get_par cov"] = lambda m, l: [], lambda m, a: m.get_par("cov_mat")
    O["get_cov"] = lambda m, l: [lay(pars(m)[1], l)], lambda m, a: m.get_cov(npar=a[0])
    O["get_par npar"] = lambda m, l: [lay(pars(m)[1], l)], lambda m, a: m.get_par(npar=a[0])
    O["get_par array"] = lambda m, l: [lay(pars(m)[1], l)], lambda m, a: m.get_par(a[0])
    O["set_par npar"] = lambda m, l: [lay(pars(m)[1], l)], lambda m, a: m.set_par(some, 0.41, npar=a[0])
    O["set_par"] = lambda m, l: [lay(pars(m)[1], l)], lambda m, a: m.set_par(*a)
    O["set_par list"] = lambda m, l: [[float(v) for v in pars(m)[1]]], lambda m, a: m.set_par(*a)
    O["set_par one"] = lambda m, l: [], lambda m, a: m.set_par(some, 0.37)
    O["set_par vv"] = lambda m, l: [lay(pars(m)[1], l)], lambda m, a: m.set_par(*a, return_vv=True)[0]
    O["load_data"] = lambda m, l: [pd.DataFrame(lay(np.hstack((DATA[:, :ny], DATA[:, :ny] ** 2)) + 0.01, l), columns=list(ref.observables)[::-1] + ["extra%d" % i for i in range(ny)])], lambda m, a: (m.load_data(*a, end=2), None)[1]
    O["load_data all"] = lambda m, l: [pd.DataFrame(lay(0.9 * DATA[:, :ny], l), columns=list(ref.observables))], lambda m, a: (m.load_data(*a), None)[1]
    O["mask"] = lambda m, l: [], lambda m, a: m.mask
    if name != "nk":
        for d in ("calib", "prior_mean", "adj_prior_mean"):
            O["get_par " + d] = lambda m, l: [], lambda m, a, d=d: np.asarray(m.get_par(d))
        O["get_par est calib"] = lambda m, l: [], lambda m, a: m.get_par("calib", full=False)
        O["get_par est mean"] = lambda m, l: [], lambda m, a: m.get_par("prior_mean", full=False)
        O["get_par est array"] = lambda m, l: [lay(0.9 * np.array(m.get_par("prior_mean", full=False)), l)], lambda m, a: np.array(m.get_par(a[0], full=False))
        O["set_par est"] = lambda m, l: [lay(0.97 * np.array(m.get_par("prior_mean", full=False)), l)], lambda m, a: m.set_par(*a)
        O["set_par est npar"] = lambda m, l: [lay(0.97 * np.array(m.get_par("prior_mean", full=False)), l)], lambda m, a: m.set_par(some, 0.41, npar=a[0])
        O["prior_sampler"] = lambda m, l: [], lambda m, a: m.prior_sampler(2, seed=5, max_attempts=100, verbose=False)
    if est:
        pm = lambda m: np.array(m.get_par("prior_mean", full=False), float)
        O["get_par init"] = lambda m, l: [], lambda m, a: m.get_par("init", full=False)
        O["get_par best"] = lambda m, l: [], lambda m, a: m.get_par("best", full=False)
        O["lprob"] = lambda m, l: [lay(pm(m) * 0.98, l)], lambda m, a: m.lprob(*a)
        O["run_filter"] = lambda m, l: [], lambda m, a: m.run_filter(smoother=False, seed=4)
        if est == "KF":
            O["smoother"] = lambda m, l: [], lambda m, a: m.run_filter()
            O["init_cov"] = lambda m, l: [lay(np.eye(len(m.vv)), l)], lambda m, a: m.run_filter(init_cov=a[0])
        O["get_ll"] = lambda m, l: [], lambda m, a: m.get_ll()
        O["box_check"] = lambda m, l: [lay(pm(m), l)], lambda m, a: m.box_check(*a)
        R = lambda m: np.diag(0.03 * (1 + np.arange(ny)))

        def extract(m, a):
            m.create_filter(**(dict(ftype="KF") if est == "KF" else dict(N=12)))
            m.filter.R = R(m)
            return m.extract(sample=a[0] if a else None, seed=2, verbose=False)

        O["extract"] = lambda m, l: [], extract
        O["extract sample"] = lambda m, l: [lay(pars(m), l)], extract

        def source(m, l):
            return [dict(pars=lay(pars(m), l), resid=lay(S(m), l), init=lay(X(m)[:, 0], l))]

        O["nhd"] = source, lambda m, a: m.nhd(*a)
        O["nhd linear"] = source, lambda m, a: m.nhd(*a, linear=True)
        O["gfevd"] = source, lambda m, a: m.gfevd(*a, verbose=False)
        O["gfevd means"] = lambda m, l: [dict(source(m, l)[0], means=lay(X(m), l))], lambda m, a: m.gfevd(*a, horizon=2, verbose=False)

        def sort(m, a):
            from pydsge.stats import sort_nhd

            return sort_nhd(a[0])

        O["sort_nhd"] = lambda m, l: [[pd.DataFrame(lay(X(m)[i], l)) for i in range(2)]], sort

        def mcmc(m, a):
            m.mcmc(p0=a[0], nsteps=3, tune=2, moves=emcee.moves.StretchMove(), backend=False, seed=7, verbose=False)
            return [np.array(m.get_chain()), np.array(m.get_log_prob())]

        if name == "est":
            O["mcmc"] = lambda m, l: [lay(pm(m) + 0.03 * np.random.RandomState(11).randn(2 * m.ndim + 2, m.ndim), l)], mcmc
        CH = lambda m: np.random.RandomState(5).rand(20, 4, m.ndim) * 0.1 + pm(m)

        def seeded(f):
            def g(m, a):
                np.random.seed(3)
                return f(m, a)

            return g

        O["get_sample"] = lambda m, l: [lay(CH(m), l)], seeded(lambda m, a: m.get_sample(5, chain=a[0]))
        O["post_mean"] = lambda m, l: [lay(CH(m), l)], lambda m, a: post_mean(m, a[0])
        O["mdd"] = lambda m, l: [lay(CH(m).reshape(-1, m.ndim), l), lay(-np.arange(80.0) / 9, l)], lambda m, a: m.mdd(chain=a[0], lprobs=a[1])
        if chain:
            for d in ("mode", "post_mean"):
                O["get_par " + d] = lambda m, l: [], lambda m, a, d=d: m.get_par(d, full=False)
            O["get_par full mode"] = lambda m, l: [], lambda m, a: m.get_par("mode")
            O["posterior"] = lambda m, l: [], lambda m, a: m.get_par("posterior", nsamples=3, seed=1)
            O["get_chain"] = lambda m, l: [], lambda m, a: np.array(m.get_chain())
            O["get_log_prob"] = lambda m, l: [], lambda m, a: np.array(m.get_log_prob())
            O["acceptance"] = lambda m, l: [], lambda m, a: m.get_chain(get_acceptance_fraction=True)
            O["get_sample own"] = lambda m, l: [], seeded(lambda m, a: m.get_sample(5))
    return O


def post_mean(m, c):
    from pydsge.stats import post_mean as f

    return f(m, chain=c)


def start(api, setup):
    s = setup.split(":")
    m = make(api, ":".join(s[:2]))
    if len(s) > 2:
        quiet(m.mcmc, p0=np.array(m.get_par("prior_mean", full=False), float) + 0.03 * np.random.RandomState(3).randn(2 * m.ndim + 2, m.ndim), nsteps=4, tune=3, moves=emcee.moves.StretchMove(), backend=False, seed=9, verbose=False)
    return m


def parts(setup):
    s = setup.split(":")
    return s[0], s[1] if s[1] != "set" else None, len(s) > 2


THEN = ["get_par", "get_par cov", "irfs", "get_ll", "lprob", "mask", "get_par calib", "get_par prior_mean", "get_par init", "get_par mode", "get_par post_mean", "get_chain", "get_log_prob"]
# what may overwrite something that was returned before (quick)
LATER = ["set_par", "set_par est", "set_par one", "load_data all", "run_filter", "smoother", "get_ll", "lprob", "get_par init", "extract", "nhd linear", "irfs pars", "obs pars", "simulate mask", "t_func obs", "traj", "get_par prior_mean"]
for _t in ("quick", "thorough"):
    BOUNDS[_t] = "%d states of preparation of 3 models x all operations (26 to 68) x %d layouts of arguments x overwriting {nothing, arguments, results} x (complete observation of the model, following operations: %s); results against later operations (%s)" % (len(SETUPS), len(LAYOUTS), ", ".join(THEN) if _t == "quick" else "all", ", ".join(LATER) if _t == "quick" else "all")


def cases(tier):
    out = []
    for s in SETUPS:
        names = list(ops(*parts(s)))
        out += [dict(setup=s, ops=names[i::8]) for i in range(8)]
    return out


def snapshot(x):
    return copy.deepcopy(x)


def observe(m, O, tier, after):
    out = {"dynamics": attempt(dynamics, m), "data": attempt(lambda: np.asarray(m.data.to_numpy(), float)), "maxima": attempt(lambda: np.asarray(m.lks))}
    for n, (mk, f) in O.items():
        if tier == "quick" and n not in THEN and n != after:
            continue
        out[n] = forked(lambda: attempt(f, m, mk(m, "C")))
    return out


def run(case, api):
    m = start(api, case["setup"])
    for op in case["ops"]:
        one(m, case["setup"], op, api)


def one(m, setup, op, api):
    O = ops(*parts(setup))
    mk, f = O[op]
    what = "%s: %s" % (setup, op)

    def first(layout):
        a = mk(m, layout)
        b = snapshot(val(a))
        r = quiet(f, m, a)
        if not agree(val(a), b):
            raise Fail("argument", "%s altered its arguments: %s, before %s" % (what, str(val(a))[:400], str(b)[:400]))
        return val(r), r, a

    def plain(layout):
        return first(layout)[0]

    def then(way, layout="C"):
        v, r, a = first(layout)
        v = snapshot(v)
        if way == "arguments":
            base(a)
        elif way == "results":
            base(r)
        out = observe(m, O, api.tier, op)
        if way == "nothing":
            # in this very process, one after another
            for n, (mk2, f2) in O.items():
                if api.tier == "quick" and n not in LATER:
                    continue
                attempt(f2, m, mk2(m, "C"))
                if not agree(val(r), v):
                    raise Fail("result", "%s: the result was altered by %s: %s, before %s" % (what, n, str(val(r))[:300], str(v)[:300]))
                api.transitions += 1
        return out

    want = forked(plain, "C")
    has = bool(mk(m, "C"))
    for l in LAYOUTS[1:] if has else []:
        got = forked(plain, l)
        if not agree(got, want):
            raise Fail("layout", "%s: result with arguments of layout %s is %s, expected %s" % (what, l, str(got)[:300], str(want)[:300]))
        api.states += 1
    ref = forked(then, "nothing")
    for way in ("arguments", "results") if has else ("results",):
        got = forked(then, way)
        for n in ref:
            if not agree(got[n], ref[n]):
                raise Fail("alias", "%s, after which the caller overwrites the %s: %s gives %s instead of %s" % (what, way, n, str(got[n])[:300], str(ref[n])[:300]))
            api.states += 1
            api.transitions += 1
    api.traces += 1
    api.outcome(op, want[0])
