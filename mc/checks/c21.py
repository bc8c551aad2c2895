"""C21: prior samples are admissible draws of the declared priors"""
import contextlib
import io
import itertools
import re

import numpy as np

from common import Fail, fclose, forked, quiet, read, same
from harness import HarnessError
from refmodel import RefModel
from checks.c01 import build
from checks.c10 import frame, D1
from checks.c11 import density

ID = "C21"
HOW = "the random draws behind the declared priors are replaced by scripts; every sequence of candidates up to the bound (with and without solution, outside the support of the prior) is fed to the real sampler by every route, and its result compared with the reference semantics of skipping; further, the unscripted sample is compared for every seed of a range with the draws of the declared distributions that have a reference solution; bounds are checked for all combinations of violated and satisfied bounds"
ASSUMPTIONS = ["numerical agreement up to 1e-6", "candidate draws are those of emcwrap.get_prior_sample, an external package, on the distributions that emcwrap builds from the declared prior"]
TEXT = build(
    ["x", "r", "u", "z"],
    ["x = x(+1) - sig*(r - p0*z(+1)) + u", "u = rho*u(-1) + e_u", "z = 0.5*z(-1) + 0.2*x(-1) + 0.5*x + e_z"],
    "r = phi*x + phz*z",
    ["e_u", "e_z"],
    [("p0", ".2"), ("rho", ".6"), ("s1", ".4"), ("phz", ".3"), ("phi", "1.5"), ("sig", ".5"), ("s2", ".3"), ("x_bar", "-0.4")],
    [("o1", "x + sig"), ("o2", "2*z - r")],
    cov={"e_u": "s1", "e_z": "2*s2"},
)
PRIOR = """estimation:
  prior:
    s2: [0.4, 0.01, 3, inv_gamma_dynare, 0.5, 0.2]
    phi: [1.4, -2, 5, normal, 0.6, 0.8]
    s1: [None, 0.05, 3, gamma, 0.4, 0.1]
    rho: [0.5, -1.5, 1.5, uniform, -0.9, 1.3]
"""
NAMES = ["s2", "phi", "s1", "rho"]
REF = RefModel(TEXT + PRIOR)
DENS = [density(v[3], float(v[4]), float(v[5])) for v in REF.prior.values()]
CAND = {
    "a": [0.4, 1.4, 0.3, 0.2],
    "b": [0.25, 0.9, 0.5, -0.5],
    "I": [0.4, -0.8, 0.3, 0.2],  # indeterminate
    "E": [0.3, 1.2, 0.3, 1.2],  # explosive
    "O": [-0.3, 1.3, 0.4, 0.3],  # solution, but outside of the support
    "p": [0.45, 0.2, 0.35, 0.1],  # solution at the calibration, but not at phz = -.1, whereas I has one at phz = 1
}
EDIT = {"edited-": ("phz", -0.1), "edited+": ("phz", 1.0)}
ALTER = ["altered", "altered+prep", "drawn+altered", "drawn+altered+prep"]
ALTERED = {"rho": [0.1, 1.2], "phi": [1.2, 0.3]}  # as in the documentation: by hand, before the estimation is prepared
MODES = {"plain": dict(try_parameter=False), "try": {}, "like": dict(check_likelihood=True)}
ROUTES = ["sampler", "par", "short"]
STATES = ["fresh", "prep", "tr", "moved"] + list(EDIT)
LEN = {"quick": 2, "thorough": 4}
NSEED = {"quick": 6, "thorough": 40}
BOUNDS = {t: "all sequences of up to %d candidates out of %d kinds x %d checks x samples of 1, 2 x %d routes x %d states of the model x limits 1, 2, %d of attempts; %d seeds, declared and altered priors; all 3^4 positions relative to the bounds x 4 notations" % (LEN[t], len(CAND), len(MODES), len(ROUTES), len(STATES), LEN[t] + 1, NSEED[t]) for t in LEN}


def cases(tier):
    out = []
    for s in STATES:
        for mode in MODES:
            if s == "fresh" and mode == "like":
                continue  # estimation not prepared
            for route in ROUTES:
                for n in (1, 2):
                    for att in (1, 2, LEN[tier] + 1):
                        out.append(dict(kind="script", state=s, mode=mode, route=route, n=n, att=att))
    for s in STATES + ALTER:
        for mode in MODES:
            if s in ("fresh", "altered", "drawn+altered") and mode == "like":
                continue
            out.append(dict(kind="seed", state=s, mode=mode))
    for s in STATES[1:]:
        for v in range(3):
            out.append(dict(kind="bounds", state=s, first=v))
    return out


# ------------------------------------------------------------------- reference
DET = {}


def logprior(x):
    return sum(f(v) for f, v in zip(DENS, x))


def admissible(x, mode, extra=None):
    if mode == "plain":
        return True
    key = (tuple(x), repr(extra))
    if key not in DET:
        k = REF.determinacy(dict(zip(NAMES, x), **(extra or {})))
        if k == "borderline":
            raise HarnessError("borderline candidate %s" % (x,))
        DET[key] = k == "unique"
    return DET[key] and (mode == "try" or np.isfinite(logprior(x)))


def reference(cands, mode, n, att, extra=None):
    """None if no admissible candidate is found"""
    it = itertools.chain(cands, itertools.repeat("a"))
    out = []
    for _ in range(n):
        for tries in range(att):
            c = next(it)
            if admissible(CAND[c], mode, extra):
                out.append(CAND[c])
                break
        else:
            return None
    return out


# ---------------------------------------------------------------------- driver
def make(api, state):
    m = read(api, TEXT + PRIOR)
    quiet(m.load_data, frame(REF, D1))
    if state.startswith("drawn"):
        quiet(m.set_par, "calib")
        quiet(m.prior_sampler, 2, seed=1, verbose=False)
        quiet(m.get_par, "prior", nsamples=2, seed=1)
    if state in ALTER:
        for p, v in ALTERED.items():
            m.prior[p][-2:] = v
    if state in ("fresh", "altered", "drawn+altered"):
        quiet(m.set_par, "calib")
        return m
    m.fdict["filter_R"] = np.diag([0.02, 0.03])
    quiet(m.prep_estim, load_R=True, linear=True, ncores=0, verbose=False, use_prior_transform=state == "tr")
    if state == "moved":
        quiet(m.set_par, "rho", -0.3)
        quiet(m.set_par, "phi", 2.5)
    elif state in EDIT:
        quiet(m.set_par, "calib")
        quiet(m.set_par, *EDIT[state])
    return m


@contextlib.contextmanager
def scripted(seq):
    import emcwrap

    fp = quiet(emcwrap.get_prior, {k: list(v) for k, v in REF.prior.items()}, verbose=False)[0]
    types = {type(p) for p in fp}
    nd = len(NAMES)
    st = {"n": 0, "foreign": False}

    def rvs(self, *a, **k):
        if a or set(k) - {"random_state"}:
            st["foreign"] = True  # candidates are drawn in another way
        c, j = divmod(st["n"], nd)
        st["n"] += 1
        return CAND[seq[c] if c < len(seq) else "a"][j]

    old = {}
    for t in types:
        old[t] = t.__dict__.get("rvs")
        t.rvs = rvs
    try:
        yield st
    finally:
        for t in types:
            if old[t] is None:
                del t.rvs
            else:
                t.rvs = old[t]


def observe(m):
    return [np.array(m.par), np.array(m.hx[0]), np.array(m.hx[1]), np.array(m.QQ(m.ppar)), [str(v) for v in m.vv], np.array([m.t_func(x * np.ones(len(m.vv)), np.array([e, 0.2]))[0] for x, e in ((0.1, -2.0), (-0.5, 0.3))])]


def call(m, route, n, mode, **k):
    k = dict(MODES[mode], **k)
    if route == "sampler":
        return quiet(m.prior_sampler, n, verbose=False, **k)
    if route == "par":
        return quiet(m.get_par, "prior", nsamples=n, **k)
    return quiet(m.get_par, "prior", nsamples=n, full=False, **k)


def judge(got, want, route, what):
    want = np.array(want, float)
    if route == "par":
        full = np.tile([REF.calib[p] for p in REF.par_names], (len(want), 1)).astype(float)
        for j, p in enumerate(NAMES):
            full[:, REF.par_names.index(p)] = want[:, j]
        want = full
    got = np.asarray(got, float)
    if not fclose(got, want):
        raise Fail("draws", "%s returned %s, expected %s" % (what, got.tolist(), want.tolist()))


def run_script(case, api):
    state, mode, route, n, att = (case[k] for k in ("state", "mode", "route", "n", "att"))
    if route == "sampler" and state in EDIT:
        return  # parameters that are not estimated: the calibration or the current ones?
    L = LEN[api.tier]
    m = make(api, state)
    before = observe(m)
    for ln in range(0, L + 1):
        for seq in itertools.product(CAND, repeat=ln):
            if ln and seq[-1] == "a" and n == 1:
                continue  # as without it
            if att * n < ln:
                continue  # never looked at

            want = reference(seq, mode, n, att)
            what = "%s of size %d (%s, %s, at most %d attempts) on candidates %s" % (route, n, mode, state, att, "".join(seq))
            with scripted(seq) as st:
                try:
                    got = call(m, route, n, mode, max_attempts=att)
                except Exception as e:
                    got = e
            if st["foreign"]:
                api.skipped += 1
                continue
            if want is None:
                if not isinstance(got, Exception):
                    raise Fail("draws", "%s returned %s although no candidate is admissible" % (what, np.asarray(got).tolist()))
            elif isinstance(got, Exception):
                raise Fail("exception", "%s raised %r, expected %s" % (what, got, want))
            else:
                judge(got, want, route, what)
            if route != "sampler":
                for a, b, nm in zip(before, observe(m), ("parameters", "solution", "solution", "covariances", "variables", "dynamics")):
                    if not (a == b if isinstance(a, list) else fclose(a, b)):
                        raise Fail("altered", "%s changed the %s of the model" % (what, nm))
            api.outcome(want is None, n, mode)
            api.states += 1
            api.transitions += max(1, min(ln, att * n))
    api.traces += 1


def run_seed(case, api):
    import emcwrap

    state, mode = case["state"], case["mode"]
    m = make(api, state)
    prior = {k: list(v) for k, v in REF.prior.items()}
    if state in ALTER:
        for p, v in ALTERED.items():
            prior[p][-2:] = v
    dens = [density(v[3], float(v[4]), float(v[5])) for v in prior.values()]
    fp = quiet(emcwrap.get_prior, prior, verbose=False)[0]

    def chk(p):
        k = REF.determinacy(dict(zip(NAMES, p)))
        if k == "borderline":
            raise HarnessError("tie")
        return 0 if k == "unique" and (mode != "like" or np.isfinite(sum(f(v) for f, v in zip(dens, p)))) else np.inf

    for seed in range(NSEED[api.tier]):
        for n in (1, 3):
            want = quiet(emcwrap.get_prior_sample, fp, n, check_func=chk if mode != "plain" else False, seed=seed, verbose=False, max_attempts=200)
            for route in ("sampler", "par", "short"):
                if route == "sampler" and state in EDIT:
                    continue
                got = forked(lambda: np.array(call(m, route, n, mode, seed=seed, max_attempts=200)))
                judge(got, want, route, "%s of size %d (%s, %s, seed %d)" % (route, n, mode, state, seed))
                api.states += 1
                api.transitions += n
    api.traces += 1


def run_bounds(case, api):
    m = make(api, case["state"])
    bnd = [(float(v[1]), float(v[2])) for v in REF.prior.values()]
    cur = [0.4, 1.4, 0.3, 0.2]
    for pos in itertools.product(range(3), repeat=3):
        pos = (case["first"],) + pos
        x = [lb - 0.005 if p == 0 else ub + 0.25 if p == 1 else c for p, (lb, ub), c in zip(pos, bnd, cur)]
        want = {NAMES[j]: "lower" if p == 0 else "higher" for j, p in enumerate(pos) if p < 2}
        full = np.array([REF.calib[p] for p in REF.par_names], float)
        for j, p in enumerate(NAMES):
            full[REF.par_names.index(p)] = x[j]
        args = [[np.array(x)], [list(x)], [list(np.array(x))], [full]]
        for k, a in enumerate(args):
            check_bounds(m, a, want, "given as %s" % ["array", "list", "list of numpy numbers", "complete vector"][k])
            api.states += 1
        api.transitions += 1
    # the current parameters
    for phi in (-1.9, 0.9, 5.5):
        for rho in (-0.9, 0.3):
            def cur_():
                quiet(m.set_par, "phi", phi)
                quiet(m.set_par, "rho", rho)
                quiet(m.set_par, "s1", 0.01)
                w = {"s1": "lower"}
                if phi > 5:
                    w["phi"] = "higher"
                if phi < -2:
                    w["phi"] = "lower"
                check_bounds(m, [], w, "the current ones")
            if REF.determinacy(dict(phi=phi, rho=rho, **dict([EDIT[case["state"]]] if case["state"] in EDIT else []))) == "unique":
                forked(cur_)
                api.states += 1
    api.traces += 1


def check_bounds(m, args, want, what):
    buf = io.StringIO()
    p0 = np.array(m.par)
    with contextlib.redirect_stdout(buf):
        m.box_check(*args)
    txt = buf.getvalue()
    got = {}
    for n in NAMES:
        for ln in txt.splitlines():
            if re.search(r"\b%s\b" % n, ln):
                got[n] = "lower" if "lower" in ln else "higher" if "higher" in ln else "?"
    if got != want:
        raise Fail("bounds", "box_check reports %s, expected %s (parameters %s: %s)" % (got, want, what, [np.asarray(a).tolist() for a in args]))
    if not same(p0, m.par):
        raise Fail("altered", "box_check changed the parameters")


def run(case, api):
    {"script": run_script, "seed": run_seed, "bounds": run_bounds}[case["kind"]](case, api)
