"""C11: the posterior is a pure function of its argument"""
import numpy as np
from scipy import stats as ss
from scipy.optimize import brentq
from scipy.special import gammaln

from common import Fail, fclose, forked, quiet, read
from refmodel import RefModel
from reffilter import RefFilter, Tie, ensemble
from checks.c01 import build
from checks.c10 import frame, D1, D2

ID = "C11"
HOW = "the tree of all sequences of evaluations and interfering operations is executed on the real posterior (forked at every node); each evaluation is compared with a reference posterior (closed-form prior densities, Gaussian likelihood or ensemble filter on the reference solution), and the global random state must be untouched"
ASSUMPTIONS = ["numerical agreement up to 1e-6", "the generic ensemble update of econsieve is shared between code and reference"]
TEXT = build(
    ["x", "r", "u", "z"],
    ["x = 0.3*x(+1) - sig*r + u", "u = rho*u(-1) + e_u", "z = ph*z(-1) + dd*x + e_z"],
    "r = phi*x + 0.3*z",
    ["e_u", "e_z"],
    [("sig", ".5"), ("rho", ".6"), ("s1", ".4"), ("ph", ".5"), ("phi", "1.5"), ("s2", ".3"), ("k", "0.4"), ("x_bar", "-0.4")],
    [("o1", "x + sig"), ("o2", "2*z - r")],
    cov={"e_u": "s1", "e_z": "2*s2"},
    parafunc=[("dd", "0.5*k")],
)
# not in the order of declaration
TEXT += """estimation:
  prior:
    s2: [0.4, 0.01, 3, inv_gamma_dynare, 0.5, 0.2]
    rho: [0.5, -1, 2, normal, 0.6, 0.5]
    k: [0.3, 0.01, 0.99, beta, 0.4, 0.15]
    s1: [None, 0.01, 3, gamma, 0.4, 0.1]
    ph: [0.2, -0.95, 0.95, uniform, -0.9, 0.9]
    sig: [0.4, 0.01, 3, inv_gamma, 0.5, 0.3]
"""
NAMES = ["s2", "rho", "k", "s1", "ph", "sig"]
POINTS = {
    "p": [0.4, 0.5, 0.3, 0.3, 0.2, 0.4],
    "q": [0.2, 0.9, 0.6, 0.5, -0.5, 0.7],
    "z": [0.4, 0.5, 0.3, 0.3, 0.0, 0.4],  # ph = 0: the number of states changes
    "unstable": [0.4, 1.3, 0.3, 0.3, 0.2, 0.4],
    "outside1": [0.4, 0.5, 1.3, 0.3, 0.2, 0.4],
    "outside2": [-0.4, 0.5, 0.3, 0.3, 0.2, 0.4],
    "outside3": [0.4, 0.5, 0.3, 0.3, 0.95, 0.4],
    "nan": [0.4, float("nan"), 0.3, 0.3, 0.2, 0.4],
}
TRANS = ["log", "id", "logit", "log", "id", "log"]
EVAL = ["p", "q", "z", "unstable", "outside1", "nan", "p.5", "q0", "o.5"]
OTHER = ["set", "maxima", "bad", "data", "R", "ll", "irfs", "rng", "get", "again"]
PREP = ["lin", "red", "full", "tr"]
DEPTH = {"quick": 2, "thorough": 3}
BOUNDS = {t: "all sequences of %d operations out of evaluations %s and interfering operations %s, for the set-ups %s, each history followed by evaluations of valid points, points without solution and points outside the prior, N=5 ensemble members" % (DEPTH[t], EVAL, OTHER, PREP) for t in DEPTH}
LAST = ["p", "unstable", "q", "outside2", "z", "outside3"]


def cases(tier):
    out = []
    for p in PREP:
        for a in EVAL + OTHER:
            for b in [None] if tier == "quick" else EVAL + OTHER:
                out.append(dict(prep=p, prefix=[a] + ([b] if b else [])))
    return out


# --------------------------------------------------------- reference posterior
def ig_dynare(mu, sd):
    f = lambda nu: 0.5 * np.log((sd ** 2 + mu ** 2) * (nu - 2) / 2) + gammaln((nu - 1) / 2) - gammaln(nu / 2) - np.log(mu)
    nu = brentq(f, 2 + 1e-9, 1e4, xtol=1e-13, rtol=1e-13)
    s = (sd ** 2 + mu ** 2) * (nu - 2)
    return lambda x: -np.inf if x <= 0 else np.log(2) - gammaln(nu / 2) - nu / 2 * np.log(2 / s) - (nu + 1) * np.log(x) - s / (2 * x ** 2)


def density(kind, a, b):
    if kind == "normal":
        return lambda x: -0.5 * np.log(2 * np.pi) - np.log(b) - 0.5 * ((x - a) / b) ** 2
    if kind == "uniform":
        return lambda x: -np.log(b - a) if a <= x <= b else -np.inf
    if kind == "gamma":
        k, th = a ** 2 / b ** 2, b ** 2 / a
        return lambda x: -np.inf if x <= 0 else (k - 1) * np.log(x) - x / th - gammaln(k) - k * np.log(th)
    if kind == "beta":
        n = a * (1 - a) / b ** 2 - 1
        p, q = a * n, (1 - a) * n
        return lambda x: -np.inf if not 0 < x < 1 else (p - 1) * np.log(x) + (q - 1) * np.log(1 - x) + gammaln(p + q) - gammaln(p) - gammaln(q)
    if kind == "inv_gamma":
        k = 2 + (a / b) ** 2
        s = a * (k - 1)
        return lambda x: -np.inf if x <= 0 else k * np.log(s) - gammaln(k) - (k + 1) * np.log(x) - s / x
    if kind == "inv_gamma_dynare":
        return ig_dynare(a, b)


REF = RefModel(TEXT)
DENS = [density(v[3], float(v[4]), float(v[5])) for v in REF.prior.values()]
assert list(REF.prior) == NAMES
CACHE, FILT = {}, {}


def logprior(x):
    if any(np.isnan(x)):
        return -np.inf
    return sum(f(v) for f, v in zip(DENS, x))


def loglik(x, prep, y, R, m):
    key = (tuple(x), prep in ("lin", "tr") and "lin" or prep, y is D1, repr(R))
    if key in CACHE:
        return CACHE[key]
    p = dict(zip(NAMES, x))
    kind = REF.determinacy(p)
    assert kind != "borderline"
    if kind != "unique":
        v = -np.inf
    else:
        if tuple(x) not in FILT:
            FILT[tuple(x)] = RefFilter(REF, REF.solve(p), p)
        rf = FILT[tuple(x)]
        if prep in ("lin", "tr"):
            v = rf.loglik(y, R)
        else:
            # the ordering of states is that at these parameters
            quiet(m.set_par, list(x))
            v = ensemble(rf, m.vv, m.dimp, y, R, 5, 4, 16, prep == "red")[0]
    CACHE[key] = v
    return v


def untransform(x):
    """parameters to sampler space"""
    return [{"log": np.log, "id": lambda z: z, "logit": lambda z: np.log(z / (1 - z))}[k](v) for k, v in zip(TRANS, x)]


class World:
    def __init__(self, api, prep):
        self.m = m = read(api, TEXT)
        self.prep = prep
        self.y, self.R = D1, np.diag([0.02, 0.03])
        quiet(m.load_data, frame(REF, D1))
        self.make()

    def make(self):
        m, prep = self.m, self.prep
        m.fdict["filter_R"] = self.R
        k = dict(ncores=0, verbose=False, N=5, seed=2)
        if prep in ("lin", "tr"):
            k.update(linear=True, use_prior_transform=prep == "tr")
        else:
            k.update(linear=False, reduced_form=prep == "red", use_prior_transform=False)
        quiet(m.prep_estim, load_R=True, **k)

    def evaluate(self, op):
        m = self.m
        temp = 1
        name = op
        if op == "p.5":
            name, temp = "p", 0.5
        elif op == "q0":
            name, temp = "q", 0
        elif op == "o.5":
            name, temp = "outside2", 0.5
        x = np.array(POINTS[name])
        lp = logprior(x)
        arg, kw = x.copy(), {}
        if self.prep == "tr":
            with np.errstate(all="ignore"):
                t = np.array(untransform(x))
            if np.all(np.isfinite(t)):
                arg = t
            else:
                kw["use_prior_transform"] = False
        if temp != 1:
            kw["temp"] = temp
        if not np.isfinite(lp):
            want = -np.inf
        elif temp == 0:
            want = lp
        else:
            # the reference is computed in a child, it may touch the model
            key = (tuple(x), self.prep in ("lin", "tr") and "lin" or self.prep, self.y is D1, repr(self.R))
            if key not in CACHE:
                CACHE[key] = forked(loglik, list(x), self.prep, self.y, self.R, m)
            want = lp + temp * CACHE[key]
        before = np.random.get_state()
        a0 = arg.copy()
        got = quiet(m.lprob, arg, **kw)
        after = np.random.get_state()
        if not (before[0] == after[0] and np.array_equal(before[1], after[1]) and before[2:] == after[2:]):
            raise Fail("random state", "evaluating %s changed the global random state" % op)
        if not np.array_equal(a0, arg, equal_nan=True):
            raise Fail("argument", "evaluating %s changed the given vector" % op)
        if np.ndim(got) or not fclose(float(got), want):
            raise Fail("posterior", "log posterior of %s (%s) is %s, expected %s" % (op, x.tolist(), got, want))

    def do(self, op):
        m = self.m
        if op in EVAL or op in POINTS:
            return self.evaluate(op)
        if op == "set":
            quiet(m.set_par, "calib")  # evaluations leave the model at their parameters
            quiet(m.set_par, "phi", 2.0)  # not estimated
            quiet(m.set_par, "rho", 0.1)
        elif op == "maxima":
            # at a point that is evaluated afterwards, but with other maximal durations
            quiet(m.set_par, POINTS["p"], l_max=2, k_max=1)
        elif op == "bad":
            try:
                quiet(m.set_par, "rho", 1.5)
            except Exception:
                pass
        elif op == "data":
            self.y = D2 if self.y is D1 else D1
            quiet(m.load_data, frame(REF, self.y))
        elif op == "R":
            self.R = np.array([[0.05, 0.01], [0.01, 0.04]])
            m.filter.R = self.R
            m.fdict["filter_R"] = self.R
        elif op == "ll":
            quiet(m.set_par, "prior_mean")
            quiet(m.get_ll)
            quiet(m.run_filter)
        elif op == "irfs":
            quiet(m.set_par, "prior_mean")
            quiet(m.irfs, ("e_u", 1, 0), T=3, verbose=False)
        elif op == "rng":
            np.random.seed(12)
            np.random.rand(3)
        elif op == "get":
            for n in ("prior_mean", "init", "calib"):
                a = quiet(m.get_par, n, full=False)
                np.asarray(a)
            quiet(m.get_cov)
            m.par_fix[3] = m.par_fix[3]
        elif op == "again":
            self.make()


def node(w, hist, op, depth):
    try:
        w.do(op)
        if len(hist) + 1 == depth:
            for o in LAST:
                w.evaluate(o)
    except Fail as f:
        raise Fail(f.sig, "after %s: %s" % (hist + [op], f.msg), f.detail)
    cnt = 1
    if len(hist) + 1 < depth:
        for o in EVAL + OTHER:
            cnt += forked(node, w, hist + [op], o, depth)
    return cnt


def run(case, api):
    try:
        w = World(api, case["prep"])
        # warm the reference
        for o in POINTS:
            w.evaluate(o)

        def go():
            h = []
            for op in case["prefix"][:-1]:
                w.do(op)
                h.append(op)
            return node(w, h, case["prefix"][-1], DEPTH[api.tier])

        n = forked(go)
    except Tie:
        api.skipped += 1
        return
    api.states += n
    api.transitions += n
    api.traces += n
    api.outcome(case["prep"], sorted(str(round(float(v), 3)) for v in CACHE.values()))
