"""C17: all routes to observables agree with the measurement equations"""
import itertools

import numpy as np
import pandas as pd

from common import Fail, fclose, quiet, read
from refmodel import RefModel
from checks.c01 import build
from checks import c10, c11

ID = "C17"
HOW = "observables are computed by the real code through every route, for a complete basis of states (the map is affine) and a basis of state covariances, at every parametrization, and compared with the written measurement equations; after every route the model must be what it was, for all pairs of routes"
ASSUMPTIONS = ["the measurement map is affine (it is a matrix product), so the basis decides all states", "numerical agreement up to 1e-9", "sampled parameters do not change the ordering of variables (rejected otherwise by simulate)"]
M = {
    "base": (c10.M["base"], [{}, dict(sig=0.8, rho=0.3), dict(rho=0.0), dict(ph=0.0), dict(sig=-0.2, ph=-0.7)]),
    "nk": (c10.M["nk"], [{}, dict(kap=0.05, rho=0.2), dict(rho=0)]),
    "long": (c10.M["long"], [{}, dict(rho=-0.5), dict(rho=0)]),
    "func": (c11.TEXT, [{}, dict(k=0.9, sig=0.3), dict(k=0), dict(ph=0)]),
    "calc": (
        build(
            ["x", "r", "u", "w"],
            ["x = 0.3*x(+1) + g*x(-1) - sig*r + u", "u = rho*u(-1) + e_u", "w = 0.5*w(-1) + x(-1) + e_w"],
            "r = 1.5*x + 0.2*r(-1)",
            ["e_u", "e_w"],
            [("sig", ".5"), ("rho", ".6"), ("g", ".2"), ("tr", ".4"), ("s", ".4"), ("x_bar", "-0.4")],
            [("q1", "tr"), ("oz", "dd*x - 0.5*r + 100*(tr**2 - 1)"), ("oa", "w/tr + u"), ("om", "r")],
            cov={"e_u": "s", "e_w": "s"},
            parafunc=[("dd", "tr**2 + 1")],
        ),
        [{}, dict(tr=-0.7), dict(g=0, tr=1.1), dict(rho=0, sig=0.1)],
    ),
    "one": (build(["x", "r"], ["x = 0.5*x(-1) - 0.3*r + e_x"], "r = 1.5*x", ["e_x"], [("s1", ".4"), ("a", "2."), ("x_bar", "-0.4")], [("o", "a*r - 3")], cov={"e_x": "s1"}), [{}, dict(a=0), dict(a=-1.5)]),
}
ROUTES = ["single", "series", "batch", "pars", "pars1", "t_func", "t_lin", "t_set", "irfs", "sim", "covs", "index", "set"]
BOUNDS = {t: "%d models x all their %d parametrizations x complete state basis x all %d x %d pairs of routes%s" % (len(M), sum(len(v[1]) for v in M.values()), len(ROUTES), len(ROUTES), "" if t == "quick" else " and all triples") for t in ("quick", "thorough")}


def cases(tier):
    out = []
    for m in M:
        for i in range(len(M[m][1])):
            for a in ROUTES:
                for b in [None] if tier == "quick" else ROUTES:
                    out.append(dict(model=m, par=i, first=[a] + ([b] if b else [])))
    return out


class World:
    def __init__(self, api, case):
        text, pars = M[case["model"]]
        self.ref = RefModel(text)
        self.pars = pars
        self.m = read(api, text)
        self.no = 0
        self.api = api
        self.at = pars[case["par"]]
        quiet(self.m.set_par, self.full(self.at))
        self.names = [str(v) for v in self.m.vv]
        for v in self.ref.vars:
            if v not in self.names:
                raise Fail("variables", "%s is not part of the solution" % v)
        n = len(self.names)
        self.basis = [np.zeros(n)] + list(np.eye(n)) + [np.arange(n) - 1.7, -2.5 * np.ones(n)]
        self.print = self.fingerprint()

    def full(self, p):
        return np.array([float(p.get(q, self.ref.calib[q])) for q in self.ref.par_names])

    def matrix(self, p):
        lin = self.ref.linear(p)[3]
        H, c = np.zeros((len(lin), len(self.names))), np.zeros(len(lin))
        for i, o in enumerate(self.ref.observables):
            c[i] = lin[o].c
            for (_, v, d), a in lin[o].d.items():
                assert d == 0
                H[i, self.names.index(v)] += a
        return H, c

    def want(self, x, p=None):
        H, c = self.matrix(self.at if p is None else p)
        return np.asarray(x) @ H.T + c

    def fingerprint(self):
        m = self.m
        e = np.ones(len(self.ref.shocks)) * -0.9
        out = [np.array(m.par, float), np.asarray(m.lks), np.array(quiet(m.get_par), float), np.asarray(quiet(m.get_cov), float), float(m.x_bar)]
        for x in self.basis[-2:]:
            s, lk, f = quiet(m.t_func, x, e, return_k=True)
            out += [s, lk, f]
        return out

    def eq(self, got, want, what):
        self.api.transitions += 1
        if not fclose(got, want, 1e-9, 1e-9):
            raise Fail("observables", "%s: %s, expected %s" % (what, np.asarray(got).tolist(), np.asarray(want).tolist()))

    def same_order(self):
        """parametrizations with the same ordering of variables"""
        if not hasattr(self, "_so"):
            self._so = []
            for p in self.pars:
                quiet(self.m.set_par, self.full(p))
                if [str(v) for v in self.m.vv] == self.names:
                    self._so.append(p)
            quiet(self.m.set_par, self.full(self.at))
        return self._so

    def do(self, r):
        m, ref = self.m, self.ref
        ny = len(ref.observables)
        B = np.array(self.basis)
        f = m.obs if self.no % 2 else m.o_func
        self.no += 1
        if r == "single":
            for x in self.basis:
                g = quiet(f, x)
                if not isinstance(g, pd.Series) or [str(v) for v in g.index] != list(ref.observables):
                    raise Fail("labels", "observables of a state are not labelled by %s" % list(ref.observables))
                self.eq(g.values, self.want(x), "observables of a single state")
        elif r == "series":
            self.eq(quiet(f, B), self.want(B), "observables of a series of states")
            self.eq(quiet(f, B[:1]), self.want(B[:1]), "observables of a series of length one")
            self.eq(quiet(f, B[::-1][::2]), self.want(B[::-1][::2]), "observables of a reversed series")
        elif r == "batch":
            X = np.array([B, B[::-1] * 2, B + 1])
            self.eq(quiet(f, X), self.want(X), "observables of a batch of series")
        elif r in ("pars", "pars1"):
            ps = self.same_order()
            if r == "pars1":
                ps = ps[-1:]
            X = np.array([B * (i + 1) for i in range(len(ps))])
            P = np.array([self.full(p) for p in ps])
            X0, P0 = X.copy(), P.copy()
            self.eq(quiet(f, X, pars=P), np.array([self.want(x, p) for x, p in zip(X, ps)]), "observables at given parameters")
            if not np.array_equal(X, X0) or not np.array_equal(P, P0):
                raise Fail("argument", "the given states or parameters were altered")
        elif r in ("t_func", "t_lin", "t_set"):
            ne = len(ref.shocks)
            kw = {"t_func": {}, "t_lin": dict(linear=True), "t_set": dict(set_k=(1, 3))}[r]
            for x in self.basis:
                for e in [np.zeros(ne), -2 * np.ones(ne)] + list(np.eye(ne)):
                    s, fl = quiet(m.t_func, x, e, **kw)
                    (q, z), fl2 = quiet(m.t_func, x, e, get_obs=True, **kw)
                    self.eq(z, self.want(np.asarray(s)), "observables from the transition function")
                    if fl != fl2:
                        raise Fail("flag", "flags differ if observables are asked for")
        elif r == "irfs":
            for e in ref.shocks:
                for sz in (-2.0, 1.0):
                    X = quiet(m.irfs, (e, sz, 0), T=6, verbose=False)[0]
                    self.eq(quiet(f, X.values), self.want(X.values), "observables of responses to %s" % e)
        elif r == "sim":
            ps = self.same_order()
            ne = len(ref.shocks)
            P = np.array([self.full(p) for p in ps])
            E = np.array([[[-1.0 - i] * ne, [0.5] * ne, [0.1 * i] * ne] for i in range(len(ps))])
            X, _, _ = quiet(m.simulate, dict(pars=P, resid=E, init=np.zeros((len(ps), len(self.names)))))
            self.eq(quiet(f, np.asarray(X), pars=P), np.array([self.want(x, p) for x, p in zip(X, ps)]), "observables of simulations")
        elif r == "covs":
            n = len(self.names)
            H, c = self.matrix(self.at)
            V = []
            for i in range(n):
                for j in range(i + 1):
                    v = np.eye(n)[i] + (np.eye(n)[j] * -0.5 if i != j else 0)
                    V.append(np.outer(v, v))
            V = np.array(V)
            X = np.array([self.basis[k % len(self.basis)] for k in range(len(V))])
            (Y, S) = quiet(f, X, covs=V)
            sx = np.sqrt(np.array([np.diag(v) for v in V]))
            sy = np.sqrt(np.maximum(np.array([np.diag(H @ v @ H.T) for v in V]), 0))
            for got, mid, sd, what in ((Y, self.want(X), sy, "observables"), (S, X, sx, "states")):
                got = np.asarray(got)
                if got.shape != (3,) + mid.shape:
                    raise Fail("intervals", "intervals of %s have shape %s" % (what, got.shape))
                self.eq(got[1], mid, "centre of the intervals of " + what)
                # the documented 95% intervals
                for q, sg in ((0, -1), (2, 1)):
                    w = mid + sg * 1.96 * sd
                    self.api.transitions += 1
                    if not fclose(got[q], w, 1e-4, 1e-4):
                        raise Fail("intervals", "bound of the 95%% interval of %s is %s, expected %s" % (what, got[q].tolist(), w.tolist()))
        elif r == "index":
            obs = [str(o) for o in ref.observables]
            for k in range(1, len(obs) + 1):
                for sel in itertools.permutations(obs, k):
                    if list(m.oix(list(sel))) != [obs.index(o) for o in sel]:
                        raise Fail("index", "indices of observables %s are %s" % (sel, m.oix(list(sel))))
            for o in obs:
                if list(m.oix(o)) != [obs.index(o)]:
                    raise Fail("index", "index of observable %s is %s" % (o, m.oix(o)))
            for a, b in itertools.permutations(self.names, 2):
                if list(m.vix([a, b])) != [self.names.index(a), self.names.index(b)]:
                    raise Fail("index", "indices of %s are %s" % ((a, b), m.vix([a, b])))
            for v in self.names:
                if list(m.vix(v)) != [self.names.index(v)]:
                    raise Fail("index", "index of %s is %s" % (v, m.vix(v)))
            for bad in ("nosuch", ["nosuch"], [self.names[0], "nosuch"]):
                try:
                    m.vix(bad)
                except Exception:
                    pass
                else:
                    raise Fail("index", "an unknown variable has an index")
            if list(m.vix([self.names[0], "nosuch"], dontfail=True)) != [0]:
                raise Fail("index", "indices of known variables among unknown ones")
            try:
                m.oix("nosuch")
            except Exception:
                pass
            else:
                raise Fail("index", "an unknown observable has an index")
        elif r == "set":
            quiet(m.set_par, self.full(self.pars[-1]))
            quiet(m.set_par, self.full(self.at))

    def check(self, r):
        self.do(r)
        for a, b in zip(self.fingerprint(), self.print):
            if not fclose(a, b, 1e-9, 1e-9):
                raise Fail("altered", "computing observables altered the model")


def run(case, api):
    w = World(api, case)
    for r in ROUTES:
        h = case["first"] + [r]
        try:
            for q in h:
                w.check(q)
        except Fail as f:
            raise Fail(f.sig, "%s at %s, after %s: %s" % (case["model"], w.at, h[:-1], f.msg), f.detail)
        api.states += len(w.basis)
        api.traces += 1
    api.outcome(case["model"], case["par"], np.round(w.want(w.basis[-1]), 6).tolist())
