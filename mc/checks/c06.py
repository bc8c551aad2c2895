"""C06: parameters, system and covariances stay in sync through any history of calls"""
import itertools

import numpy as np
import pandas as pd

from common import Fail, fclose, quiet, write
from harness import in_pydsge
from reffilter import RefFilter
from refmodel import RefModel
from checks.c01 import build

ID = "C06"
HOW = "all histories of the operation alphabet are executed on real model objects; after the last operation every observable (parameters, derived parameters, covariances, likelihood of the linear filter, transition incl. durations, observables) is compared with the reference machine {parameters, maxima} and the reference solution of the file at these parameters"
ASSUMPTIONS = ["numerical agreement up to 1e-6", "'init' is only available after prep_estim, 'mode' only if a mode is stored, as documented"]

PARS = [("sig", ".5"), ("bet", ".9"), ("kap0", ".05"), ("phi", "1.5"), ("rho", ".7"), ("rr", ".3"), ("s", ".4"), ("cc", ".2")]
PRIOR = "estimation:\n  prior:\n    phi: [1.6, 1.01, 3, normal, 1.7, 0.1]\n    rho: [None, 0.01, 0.99, beta, 0.6, 0.1]\n    s: [0.3, 0.1, 0.9, uniform, 0.2, 0.8]\n    sig: [0.45, 0.01, 3, gamma, 0.55, 0.1]\n"
EST = ["phi", "rho", "s", "sig"]
PMEAN = {"phi": 1.7, "rho": 0.6, "s": 0.5, "sig": 0.55}
INIT = {"phi": 1.6, "rho": 0.7, "s": 0.3, "sig": 0.45}
MODE = {"phi": 1.9, "rho": 0.35, "s": 0.45, "sig": 0.7}


def text(xb):
    pars = PARS + ([("x_bar", "-1")] if xb == "par" else [])
    pf = [("s2", "2*s + kap"), ("kap", "kap0*2")] + ([("x_bar", "-cc - s")] if xb == "func" else [])
    return (
        build(
            ["y", "p", "r", "u"],
            ["y = y(+1) - sig*(r - p(+1)) + u", "p = bet*p(+1) + kap*y + e_p", "u = rho*u(-1) + e_u"],
            "r = rr*r(-1) + phi*p + 0.1*y",
            ["e_u", "e_p"],
            pars,
            [("o1", "y + cc"), ("o2", "4*r - kap")],
            cov={"e_u": "s", "e_p": "s2"},
            parafunc=pf,
        )
        + PRIOR
    )


RR = np.diag([0.03, 0.02])


def vec(st, upd):
    return dict(st, **upd)


# operation: name -> (kind, ...)
FULL1 = dict(sig=0.6, bet=0.85, kap0=0.1, phi=1.9, rho=0.4, rr=0.2, s=0.35, cc=0.1)
FULLBAD = dict(FULL1, phi=0.2)
SETS = {
    "set calib": lambda c, st: dict(c),
    "set prior_mean": lambda c, st: dict(c, **PMEAN),
    "set phi": lambda c, st: dict(st, phi=2.2),
    "set kap0": lambda c, st: dict(st, kap0=0.2),
    "set cc": lambda c, st: dict(st, cc=0.6),
    "set s": lambda c, st: dict(st, s=0.9),
    "set bad phi": lambda c, st: dict(st, phi=0.1),
    "set bad rho": lambda c, st: dict(st, rho=1.3),
    "set full": lambda c, st: dict(c, **FULL1),
    "set fulllist": lambda c, st: dict(c, **dict(FULL1, rho=0.2)),
    "set fullbad": lambda c, st: dict(c, **FULLBAD),
    "set est": lambda c, st: dict(st, phi=1.8, rho=0.3, s=0.25, sig=0.4),
    "set estbad": lambda c, st: dict(st, phi=0.3, rho=0.3, s=0.25, sig=0.4),
    "set none": lambda c, st: dict(st),
    "set mode": lambda c, st: dict(c, **MODE),
    "set init": lambda c, st: dict(c, **INIT),
    "set derived": lambda c, st: None,
    "set unknown": lambda c, st: None,
    "set unknownset": lambda c, st: None,
    "set l_max": lambda c, st: dict(st),
    "set badbound": lambda c, st: None,
}
GETS = ["get", "get est", "get name", "get derived", "get calib", "get prior_mean", "get best", "get asdict", "get cov", "get cov npar", "get npar", "get prior", "npar set", "irfs pars", "obs pars", "get mutate", "get unknown", "get given"]
START = ["fresh", "prep"]
QUICK3 = ["set calib", "set phi", "set bad phi", "set full", "set fullbad", "set est", "set l_max", "get prior_mean", "get cov npar", "get npar", "get prior", "obs pars", "irfs pars"]
BOUNDS = {
    "quick": "2 files x start {fresh, after prep_estim} x all histories of length <= 2 over %d operations, and all of length 3 over the %d operations %s" % (len(SETS) + len(GETS), len(QUICK3), QUICK3),
    "thorough": "2 files x start {fresh, after prep_estim} x all histories of length <= 3 over %d operations" % (len(SETS) + len(GETS)),
}


def cases(tier):
    out = []
    ops = list(SETS) + GETS
    for xb in ("par", "func"):
        for start in START:
            H = [()] + [(a,) for a in ops] + list(itertools.product(ops, repeat=2))
            if tier == "thorough":
                H += list(itertools.product(ops, repeat=3))
            elif start == "fresh" and xb == "par":
                H += list(itertools.product(QUICK3, repeat=3))
            n = max(1, len(H) // 30)
            for i in range(n):
                out.append(dict(xb=xb, start=start, hist=[list(h) for h in H[i::n]]))
    return out


class Machine:
    def __init__(self, api, xb, start):
        self.api = api
        self.text = text(xb)
        self.ref = RefModel(self.text)
        self.names = self.ref.par_names
        self.cal = dict(self.ref.calib)
        self.sols = {}
        self.lls = {}
        self.file = write(api, self.text)
        self.start = start
        self.dets = {}

    def fresh(self):
        from pydsge import DSGE

        if self.start == "fresh" or True:
            m = quiet(DSGE.read, self.file)
        if self.start == "prep":
            df = pd.DataFrame(0.1 * np.sin(np.arange(24.0)).reshape(12, 2) + [0.2, 0], columns=["o1", "o2"])
            quiet(m.load_data, df)
            self.Y = df.values
            m.fdict["filter_R"] = RR
            m.fdict["mode_x"] = np.array([MODE[n] for n in EST])
            quiet(m.prep_estim, linear=True, ncores=0, verbose=False, seed=0)
            self.st = dict(self.cal, **PMEAN)
            self.lk = (1, 0)
        else:
            self.st = dict(self.cal)
            self.lk = (2, 17)
        return m

    def sol(self, st):
        k = repr(sorted(st.items()))
        if k not in self.sols:
            self.sols[k] = self.ref.solve(st)
        return self.sols[k]

    def det(self, st):
        k = repr(sorted(st.items()))
        if k not in self.dets:
            self.dets[k] = self.ref.determinacy(st)
        return self.dets[k]

    def arr(self, st):
        return np.array([st[n] for n in self.names], float)

    def est(self, st):
        return np.array([st[n] for n in EST], float)

    # ---------------------------------------------------------- operations
    def do(self, m, op):
        if op.startswith("set "):
            return self.do_set(m, op)
        return self.do_get(m, op)

    def do_set(self, m, op):
        st = self.st
        new = SETS[op](self.cal, st)
        kw = {}
        if op == "set calib":
            f = lambda: m.set_par("calib")
        elif op == "set prior_mean":
            f = lambda: m.set_par("prior_mean")
        elif op in ("set phi", "set kap0", "set cc", "set s"):
            n = op[4:]
            f = lambda: m.set_par(n, new[n])
        elif op == "set bad phi":
            f = lambda: m.set_par("phi", new["phi"])
        elif op == "set bad rho":
            f = lambda: m.set_par("rho", new["rho"])
        elif op in ("set full", "set fullbad"):
            f = lambda: m.set_par(self.arr(new))
        elif op == "set fulllist":
            f = lambda: m.set_par(list(self.arr(new)))
        elif op in ("set est", "set estbad"):
            f = lambda: m.set_par(self.est(new))
        elif op == "set none":
            f = lambda: m.set_par()
        elif op == "set mode":
            f = lambda: m.set_par("mode")
            if self.start != "prep":
                new = None
        elif op == "set init":
            f = lambda: m.set_par("init")
            if self.start != "prep":
                new = None
        elif op == "set derived":
            f = lambda: m.set_par("kap", 0.2)
        elif op == "set unknown":
            f = lambda: m.set_par("kappa", 0.2)
        elif op == "set unknownset":
            f = lambda: m.set_par("calibration")
        elif op == "set l_max":
            f = lambda: m.set_par(l_max=4, k_max=6)
        elif op == "set badbound":
            n = "x_bar" if "x_bar" in self.names else "cc"
            f = lambda: m.set_par(n, 0.5 if n == "x_bar" else -3.0)
        acc = new is not None and self.det(new) == "unique" and self.ref.x_bar(new) <= 0
        try:
            ret = quiet(f)
            err = None
        except Exception as e:
            if not in_pydsge(e.__traceback__):
                raise
            err = e
        if acc and err is not None:
            raise Fail("rejected", "%s failed: %r" % (op, err))
        if not acc and err is None:
            raise Fail("accepted", "%s was accepted" % op)
        if acc:
            self.st = new
            if op == "set l_max":
                self.lk = (4, 6)
            if not fclose(ret, self.arr(new), 1e-12, 1e-12):
                raise Fail("return", "%s returned %s, expected %s" % (op, ret, self.arr(new)))

    def do_get(self, m, op):
        st, cal = self.st, self.cal
        exp = None
        if op == "get":
            r, exp = quiet(m.get_par), self.arr(st)
        elif op == "get est":
            r, exp = quiet(m.get_par, full=False), self.est(st)
        elif op == "get name":
            r, exp = [quiet(m.get_par, n) for n in self.names], self.arr(st)
        elif op == "get derived":
            d = self.ref.derived(st)
            r, exp = [quiet(m.get_par, n) for n in d], list(d.values())
        elif op == "get calib":
            r, exp = np.concatenate((quiet(m.get_par, "calib"), quiet(m.get_par, "calib", full=False))), np.concatenate((self.arr(cal), self.est(cal)))
        elif op == "get prior_mean":
            e = dict(cal, **PMEAN)
            r, exp = np.concatenate((quiet(m.get_par, "prior_mean"), quiet(m.get_par, "prior_mean", full=False))), np.concatenate((self.arr(e), self.est(e)))
        elif op == "get best":
            try:
                r = quiet(m.get_par, "best", full=False)
            except Exception as e:
                if self.start == "prep":
                    raise
                return
            exp = self.est(MODE)
        elif op == "get asdict":
            a, b = quiet(m.get_par, asdict=True)
            c = quiet(m.get_par, asdict=True, full=False)
            d = self.ref.derived(st)
            if set(a) != set(self.names) or set(b) != set(d) or set(c) != set(EST):
                raise Fail("asdict", "get_par(asdict=True) returned %s, %s, %s" % (a, b, c))
            r = [a[n] for n in self.names] + [b[n] for n in d] + [c[n] for n in EST]
            exp = np.round(np.concatenate((self.arr(st), list(d.values()), self.est(st))), 5)
        elif op == "get cov":
            r, exp = quiet(m.get_cov), self.ref.qq(st)
        elif op == "get cov npar":
            o = dict(st, s=0.77, kap0=0.3)
            q = dict(st, phi=1.1, rho=0.1, s=0.66, sig=0.9)
            r = np.concatenate((quiet(m.get_cov, npar=self.arr(o)), quiet(m.get_cov, npar=self.est(q)), quiet(m.get_par, "cov_mat")))
            exp = np.concatenate((self.ref.qq(o), self.ref.qq(q), self.ref.qq(st)))
        elif op == "get npar":
            o = dict(cal, s=0.77, kap0=0.3)
            q = dict(st, phi=1.1, rho=0.1, s=0.66, sig=0.9)
            r = [quiet(m.get_par, "s", npar=self.arr(o)), quiet(m.get_par, "kap", npar=self.arr(o)), quiet(m.get_par, "s2", npar=self.est(q)), quiet(m.get_par, "cc", npar=self.est(q))]
            exp = [0.77, 0.6, self.ref.derived(q)["s2"], st["cc"]]
        elif op == "get given":
            o = dict(cal, s=0.77, kap0=0.3)
            r = np.concatenate((quiet(m.get_par, self.est(o)), quiet(m.get_par, self.est(o), full=False)))
            exp = np.concatenate((self.arr(dict(st, **{n: o[n] for n in EST})), self.est(o)))
        elif op == "get prior":
            r = np.asarray(quiet(m.get_par, "prior", nsamples=2, verbose=False))
            if r.shape != (2, len(self.names)):
                raise Fail("prior", "draws from the prior have shape %s" % (r.shape,))
            for q in r:
                d = dict(zip(self.names, q))
                if any(d[n] != cal[n] for n in self.names if n not in EST) or self.det(d) not in ("unique", "borderline") or not 0.2 <= d["s"] <= 0.8 or not 0 < d["rho"] < 1:
                    raise Fail("prior", "draw from the prior %s has no solution or lies outside of the prior" % d)
            return
        elif op == "npar set":
            v = self.arr(st)
            w = self.est(st)
            r = np.concatenate((quiet(m.set_par, "rho", 0.11, npar=v), quiet(m.set_par, "rho", 0.12, npar=w)))
            exp = np.concatenate((self.arr(dict(st, rho=0.11)), self.est(dict(st, rho=0.12))))
        elif op == "irfs pars":
            o = dict(st, rho=0.15, s=0.7)
            X, LK, fl = quiet(m.irfs, ("e_u", 0.5), T=4, pars=np.array([self.arr(o), self.arr(dict(o, sig=0.9))]), linear=True, verbose=False)
            r = np.asarray(X)[0][:, [list(m.vv).index(v) for v in self.ref.vars]]
            s = self.sol(o)
            exp = s.path(np.zeros(s.n), [0.5, 0], 0, 0, 4)[:, : len(self.ref.vars)]
        elif op == "obs pars":
            o = dict(st, cc=0.9, kap0=0.25)
            X = np.eye(len(m.vv))[None] if hasattr(m, "vv") and len(m.vv) == 4 else None
            if X is None or not hasattr(m, "hx"):
                return
            r = quiet(m.obs, X, pars=[self.arr(o)])
            vv = [str(v) for v in m.vv]
            exp = np.array([[[(v == "y") + 0.9, 4 * (v == "r") - 0.5] for v in vv]])
        elif op == "get mutate":
            for f in (lambda: m.get_par(), lambda: m.get_par(full=False), lambda: m.get_par("calib"), lambda: m.get_par("calib", full=False), lambda: m.get_cov(), lambda: m.get_par("prior_mean")):
                x = quiet(f)
                try:
                    x[:] = 7.7
                except Exception:
                    pass
                if isinstance(x, list):
                    x[0] = 7.7
            return
        elif op == "get unknown":
            for n in ("kappa", "calibration", "e_u", "y"):
                try:
                    r = quiet(m.get_par, n)
                except Exception:
                    continue
                raise Fail("unknown", "get_par(%r) returned %s" % (n, r))
            return
        if not fclose(r, exp, 1e-6, 1e-9):
            raise Fail("get", "%s returned %s, expected %s" % (op, r, exp))

    # --------------------------------------------------------- observation
    def observe(self, m, api):
        st = self.st
        for op in ("get", "get est", "get name", "get derived", "get cov"):
            self.do_get(m, op)
        quietly = lambda f, *a, **k: quiet(f, *a, **k)
        sol = self.sol(st)
        names = [str(v) for v in m.vv]
        jx = [names.index(v) for v in self.ref.vars]
        L, K = self.lk[0] + 1, self.lk[1]
        if self.start == "prep" and self.lk == (1, 0):
            L, K = 2, 0
        if self.start == "prep":
            k = repr(sorted(st.items()))
            if k not in self.lls:
                self.lls[k] = RefFilter(self.ref, sol, st).loglik(self.Y, RR)
            ll = float(quiet(m.get_ll))
            if not fclose(ll, self.lls[k], 1e-6, 1e-6):
                raise Fail("filter", "the likelihood of the linear filter is %s, but %s at the current parameters %s" % (ll, self.lls[k], st))
        x, s = np.zeros(sol.n), np.zeros(len(names))
        lin = self.ref.linear(st)[3]
        for e in ([0.3, 0.1], [-3.0, -1.0], [0.0, 0.0], [1.0, 2.0], [-8.0, 0.0]):
            l, k, f, marg = sol.select(x, e, L, K)
            X, lk, fl = quietly(m.t_func, s, np.array(e), return_k=True)
            api.transitions += 1
            x = sol.step(x, e, l, k)
            R = x[: len(self.ref.vars)]
            scale = max(1.0, np.max(np.abs(R)))
            s = np.asarray(X)
            if marg < 1e-7:
                return
            if tuple(int(z) for z in lk) != (l, k) or int(fl) != f or not fclose(s[jx] / scale, R / scale, 1e-6, 1e-6):
                raise Fail("system", "transition does not correspond to the current parameters %s: durations %s (flag %s), state %s, expected %s (%s), %s" % (st, lk, fl, s[jx], (l, k), f, R))
            O = np.asarray(quietly(m.obs, s), float)
            P = dict(zip(self.ref.vars, R))
            E = np.array([sum(c * P[n] for (q, n, d), c in lin[o].d.items()) + lin[o].c for o in self.ref.observables])
            if not fclose(O / scale, E / scale, 1e-6, 1e-6):
                raise Fail("observables", "observables %s do not correspond to the current parameters (expected %s)" % (O, E))


def run(case, api):
    ma = Machine(api, case["xb"], case["start"])
    for h in case["hist"]:
        m = ma.fresh()
        api.states += 1
        try:
            for op in h:
                api.transitions += 1
                ma.do(m, op)
            ma.observe(m, api)
        except Fail as f:
            raise Fail(f.sig, "after %s: %s" % (h, f.msg), dict(hist=h, start=case["start"], xb=case["xb"]))
        api.traces += 1
        api.outcome(sorted(ma.st.items()))
