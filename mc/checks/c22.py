"""C22: reporting and debugging options never change results"""
import os

import emcee
import numpy as np
import pandas as pd

from common import Fail, fclose, forked, quiet, read, write
from refmodel import RefModel
from checks import c16
from checks.c10 import frame, M as M10
from checks.c11 import TEXT

ID = "C22"
HOW = "every operation is executed with every level of verbosity, with and without debugging, from every state of preparation (forked), followed by every other operation in quiet mode; what the first one returns and what the second one returns must be the same as when the first one was quiet"
ASSUMPTIONS = ["numerical agreement up to 1e-6", "what is printed is not judged", "errors are the same if their type is"]
MODELS = {"est": TEXT, "asset": M10["asset"], "nk": M10["nk"]}
REF = {k: RefModel(v) for k, v in MODELS.items()}
SETUPS = ["est:set", "est:KF", "est:EnKF", "asset:set", "nk:set", "asset:KF"]
LEVELS = {"quick": [2, 4, "debug2"], "thorough": [True, 1, 2, 3, 4, 5, "debug", "debug2", "debug4"]}
THEN = ["t_func", "set_par one", "get_par", "irfs", "traj", "simulate", "get_ll", "lprob", "prior_sampler"]  # quick: what follows
DATA = np.array([[0.3, -0.2, 0.1], [0.1, -0.6, 0.2], [0.2, 0.1, -0.3], [-0.4, 0.3, 0.1]])


def kwargs(level, debug):
    """arguments of a level; None if the operation has no such option"""
    if level == 0:
        return dict(verbose=False)
    if isinstance(level, str):
        if not debug:
            return None
        return dict(verbose=int(level[5:] or 0), debug=True)
    return dict(verbose=level)


def val(x):
    """results as something comparable"""
    if isinstance(x, pd.DataFrame):
        return ["frame", [str(c) for c in x.columns], val(x.values)]
    if isinstance(x, pd.Series):
        return ["series", [str(c) for c in x.index], val(x.values)]
    if isinstance(x, dict):
        return ["dict"] + [[str(k), val(v)] for k, v in x.items()]
    if isinstance(x, (list, tuple)):
        return ["seq"] + [val(v) for v in x]
    a = np.asarray(x)
    if a.dtype.kind in "OUSb":
        if a.dtype.kind == "O":
            return ["objs"] + [val(v) if not np.isscalar(v) and v is not None else repr(v) for v in a.ravel()]
        return ["text", repr(a.tolist())]
    return ["num", a]


def agree(a, b):
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(agree(x, y) for x, y in zip(a, b))
    if isinstance(a, np.ndarray) and isinstance(b, np.ndarray):
        return fclose(a, b)
    return type(a) is type(b) and a == b


def dynamics(m):
    out = [[str(v) for v in m.vv]]
    n, e = len(m.vv), len(m.shocks)
    for x, s in ((0.1, -3.0), (-0.4, 0.3), (0.0, 6.0)):
        r = m.t_func(x * np.linspace(-1, 1, n), s * np.linspace(1, 0.3, e), return_k=True)
        out.append([np.asarray(r[0], float), np.asarray(r[1], float), float(r[2])])
    out.append(np.asarray(m.obs(np.linspace(-1, 1, n)), float))
    return out


def ops(name, est):
    """operations of a model in this state: name -> (debug option, function of model and options)"""
    ref = REF[name]
    sh = ref.shocks
    bad = {"est": ("sig", -5.0), "asset": ("phi_pi", 0.2), "nk": ("kap", -3.0)}[name]
    some = {"est": "rho", "asset": "rho_u", "nk": "rho"}[name]
    O = {}
    x = lambda m: 0.2 * np.linspace(-1, 1, len(m.vv))

    def near(m):
        p = np.array([m.get_par(), m.get_par()], float)
        p[1, ref.par_names.index(some)] *= 0.9
        return p

    q = lambda m: 0.6 * np.linspace(-2, 1, m.dimq)
    e = lambda m: -2.0 * np.linspace(1, 0.2, len(m.shocks))
    O["t_func"] = (0, lambda m, k: m.t_func(x(m), e(m), return_k=True, **k))
    O["t_func linear"] = (0, lambda m, k: m.t_func(x(m), e(m), linear=True, get_obs=True, **k))
    O["set_par one"] = (0, lambda m, k: m.set_par(some, 0.35, **k))
    O["set_par all"] = (0, lambda m, k: [m.set_par("calib", l_max=3, k_max=9, **k), np.asarray(m.lks)])
    O["set_par vv"] = (0, lambda m, k: m.set_par(some, 0.61234567, return_vv=True, roundto=1, **k))
    O["set_par bad"] = (0, lambda m, k: m.set_par(*bad, **k))
    O["get_par"] = (1, lambda m, k: [m.get_par(roundto=1, **k), m.get_par("calib", asdict=True, **k)])
    O["irfs"] = (1, lambda m, k: m.irfs([(sh[0], -4.0, 0), (sh[1], 2.5, 2)], T=8, **k))
    O["irfs free"] = (1, lambda m, k: m.irfs((sh[1], -6.0, 1), T=7, force_init_equil=False, **k))
    O["irfs pars"] = (1, lambda m, k: m.irfs((sh[1], -2.0, 1), T=5, pars=near(m), **k))
    O["irfs far"] = (1, lambda m, k: m.irfs((sh[0], -60.0, 0), T=4, **k))
    O["traj"] = (0, lambda m, k: m.traj(q(m), **k))
    O["traj lk"] = (0, lambda m, k: m.traj(q(m), l=1, k=2, **k))
    O["k_map"] = (0, lambda m, k: m.k_map(q(m), **k))

    def sim(m, k):
        r = np.random.RandomState(3)
        return m.simulate(pars=near(m), resid=2 * r.randn(2, 4, len(sh)), init=np.zeros((2, len(m.vv))), **k)

    O["simulate"] = (1, sim)
    if name == "nk":

        def dic(m, k):
            p = c16.mdict(ref, {}, {})
            r = c16_gen(p, force_processing=True, **k)
            return [dynamics(r), np.asarray(r.traj(0.3 * np.ones(r.dimq), verbose=False), float)]

        O["dict"] = (0, dic)
    else:
        pm = lambda m: np.array(m.get_par("prior_mean", full=False), float)

        def rdprior(m, k):
            return m.prior_sampler(3, seed=5, max_attempts=100, **k)

        O["prior_sampler"] = (1, rdprior)
        O["get_par prior"] = (1, lambda m, k: m.get_par("prior", nsamples=2, seed=1, **k))
    if est:
        O["get_ll"] = (0, lambda m, k: m.get_ll(**k))
        O["run_filter"] = (0, lambda m, k: m.run_filter(smoother=est == "KF", seed=4, **k))
        O["lprob"] = (0, lambda m, k: m.lprob(pm(m), **k))

        def lfail(m, k):
            out = []
            for p, v in ((m.prior_names[0], 1e3), bad if bad[0] in m.prior_names else (m.prior_names[-1], -3.0), (m.prior_names[-1], np.nan)):
                z = pm(m)
                z[list(m.prior_names).index(p)] = v
                out.append(m.lprob(z, **k))
            return out

        O["lprob fails"] = (0, lfail)
        O["prior like"] = (1, lambda m, k: m.prior_sampler(2, check_likelihood=True, seed=5, max_attempts=100, **k))

        def mcmc(m, k):
            p0 = pm(m) + 0.03 * np.random.RandomState(11).randn(2 * m.ndim + 2, m.ndim)
            m.mcmc(p0=p0, nsteps=3, tune=2, moves=emcee.moves.StretchMove(), backend=False, seed=7, **k)
            return [m.sampler.get_chain(), m.sampler.get_log_prob(), m.fdict["mode_x"], m.fdict["mode_f"]]

        if name == "est":
            O["mcmc"] = (0, mcmc)
        O["extract"] = (1, lambda m, k: (quiet(m.create_filter, R=m.filter.R, **(dict(ftype="KF") if est == "KF" else dict(N=12))), m.extract(**(dict(k, seed=2) if est == "KF" else dict(k, seed=2))))[1])
        O["prep"] = (1, lambda m, k: (m.prep_estim(linear=est == "KF", load_R=True, N=12, ncores=0, **k), m.lprob(pm(m), verbose=False))[1])
    return O


def c16_gen(*a, **k):
    from pydsge import gen_sys_from_dict

    return gen_sys_from_dict(*a, **k)


def make(api, setup):
    name, st = setup.split(":")
    ref = REF[name]
    m = read(api, MODELS[name])
    quiet(m.set_par, "calib")
    ny = len(ref.observables)
    quiet(m.load_data, frame(ref, DATA[:, :ny]))
    if st != "set":
        m.fdict["filter_R"] = np.diag(0.02 * (1 + np.arange(ny)))
        quiet(m.prep_estim, N=12, linear=st == "KF", load_R=True, ncores=0, verbose=False, **(dict(seed=3)))
    return m


BOUNDS = {t: "%d states of preparation of 3 models x all operations with such options (%d to 27) x options %s x following operations (%s); reading anew and again with 9 combinations" % (len(SETUPS), 16, LEVELS[t], ", ".join(THEN) if t == "quick" else "all") for t in LEVELS}


def cases(tier):
    out = []
    for s in SETUPS:
        name, st = s.split(":")
        for o, (dbg, _) in ops(name, st if st != "set" else None).items():
            out.append(dict(setup=s, op=o))
    for name in MODELS:
        out.append(dict(setup=name + ":read", op="read"))
    return out


def attempt(f, *a):
    try:
        return val(quiet(f, *a))
    except Exception as e:
        return ["raised", type(e).__name__]


def run_read(case, api):
    """reading a model"""
    name = case["setup"].split(":")[0]
    from pydsge import DSGE

    path = write(api, MODELS[name])

    def one(k, again):
        m = quiet(DSGE.read, path, nocache=not again, **k)
        if again:
            m = quiet(DSGE.read, path, **k)
        quiet(m.set_par, "calib")
        p = os.path.join(api.dir(), "saved")
        out = [val(dynamics(m)), val(m.get_par()), val([str(p) for p in m.parameters]), val([str(p) for p in m.shocks])]
        return out

    want = forked(one, {}, False)
    for lv in [True, 2, 3]:
        for k in (dict(verbose=lv), dict(debug=True), dict(verbose=lv, debug=True)):
            for again in (False, True):
                got = forked(one, k, again)
                if not agree(got, want):
                    raise Fail("read", "%s: reading with %s gives another model: %s instead of %s" % (name, k, str(got)[:300], str(want)[:300]))
                api.states += 1
                api.transitions += 1
    api.traces += 1


def run(case, api):
    if case["op"] == "read":
        return run_read(case, api)
    name, st = case["setup"].split(":")
    O = ops(name, st if st != "set" else None)
    dbg, f = O[case["op"]]
    m = make(api, case["setup"])

    def first(level):
        r = attempt(f, m, kwargs(level, dbg))
        after = {}
        for n, (d, g) in O.items():
            if api.tier == "quick" and n not in THEN:
                continue
            after[n] = forked(attempt, g, m, kwargs(0, d))
        after["dynamics"] = attempt(dynamics, m)
        return r, after

    want, after = forked(first, 0)
    for level in LEVELS[api.tier]:
        if kwargs(level, dbg) is None:
            continue
        got, then = forked(first, level)
        what = "%s: %s with %s" % (case["setup"], case["op"], ", ".join("%s=%s" % kv for kv in kwargs(level, dbg).items()))
        if not agree(got, want):
            raise Fail("result", "%s gives %s instead of %s" % (what, str(got)[:400], str(want)[:400]))
        for n in after:
            if not agree(then[n], after[n]):
                raise Fail("state", "%s, then %s gives %s instead of %s" % (what, n, str(then[n])[:400], str(after[n])[:400]))
            api.states += 1
            api.transitions += 2
    api.traces += 1
    api.outcome(case["op"], want[0])
