"""Reference semantics of a pydsge model file, written without looking at how
pydsge compiles it.

A model file is interpreted directly: every equation is evaluated with
first-order dual numbers (`Lin`), which yields the coefficient of each
(symbol, date) pair.  From those coefficients the module builds a companion
form `A x(+1) + B x + C x(-1) + D e = 0`, solves it by plain time iteration and
handles the occasionally binding constraint by backward recursion over the
assumed regime sequence.  Nothing here is shared with pydsge.
"""

import itertools
import math

import numpy as np
import scipy.linalg as sl
import scipy.stats as sst
import yaml


class Lin:
    """first-order dual number: constant + {(kind, name, date): coefficient}"""

    __slots__ = ("c", "d", "sym")
    __array_priority__ = 1000

    def __init__(self, c=0.0, d=None, sym=None):
        self.c = float(c)
        self.d = d or {}
        self.sym = sym

    @staticmethod
    def lift(x):
        return x if isinstance(x, Lin) else Lin(float(x))

    def __call__(self, lead):
        kind, name, date = self.sym
        key = (kind, name, date + int(lead))
        return Lin(0.0, {key: 1.0}, key)

    def _comb(self, o, fs, fo, c):
        d = {}
        for k, v in self.d.items():
            d[k] = d.get(k, 0.0) + fs * v
        for k, v in o.d.items():
            d[k] = d.get(k, 0.0) + fo * v
        return Lin(c, d)

    def __add__(self, o):
        o = Lin.lift(o)
        return self._comb(o, 1, 1, self.c + o.c)

    __radd__ = __add__

    def __sub__(self, o):
        o = Lin.lift(o)
        return self._comb(o, 1, -1, self.c - o.c)

    def __rsub__(self, o):
        return Lin.lift(o) - self

    def __mul__(self, o):
        o = Lin.lift(o)
        return self._comb(o, o.c, self.c, self.c * o.c)

    __rmul__ = __mul__

    def __truediv__(self, o):
        o = Lin.lift(o)
        return self._comb(o, 1 / o.c, -self.c / o.c ** 2, self.c / o.c)

    def __rtruediv__(self, o):
        return Lin.lift(o) / self

    def __neg__(self):
        return self * -1.0

    def __pos__(self):
        return self

    def __pow__(self, o):
        o = Lin.lift(o)
        assert not o.d
        if o.c == 2:
            return self * self
        return self._comb(Lin(), o.c * self.c ** (o.c - 1) if self.d else 0.0, 0, self.c ** o.c)


STDFUNCS = {
    "exp": math.exp,
    "log": math.log,
    "sqrt": math.sqrt,
    "normpdf": lambda x: float(sst.norm.pdf(x)),
    "normcdf": lambda x: float(sst.norm.cdf(x)),
    "normppf": lambda x: float(sst.norm.ppf(x)),
    "norminv": lambda x: float(sst.norm.ppf(x)),
}


class RefModel:
    """the meaning of a model file"""

    def __init__(self, text, funcs=None):
        import re

        t = text.replace("^", "**").replace(";", "")
        t = re.sub(r"@ ?\n", " ", t)
        t = re.sub(r"(\n *)~ ", r"\1- ", t)
        y = yaml.safe_load(t)
        self.yaml = y
        self.vars = list(y["declarations"]["variables"])
        self.calib = {k: float(v) if not isinstance(v, str) else float(eval(v)) for k, v in y["calibration"]["parameters"].items()}
        self.par_names = list(self.calib)
        self.parafunc = {k: str(v) for k, v in (y["calibration"].get("parafunc") or {}).items()}
        self.shocks = list(y["calibration"]["covariances"])
        self.cov = y["calibration"]["covariances"]
        eqs = y["equations"]
        self.eqs = list(eqs["model"])
        self.const = eqs["constraint"][0]
        self.obs = dict(eqs.get("observables") or {})
        self.observables = list(self.obs)
        self.cvar = self.const.split("=")[0].strip()
        self.prior = (y.get("estimation") or {}).get("prior") or {}
        self.funcs = dict(STDFUNCS)
        self.funcs.update(funcs or {})

    # ------------------------------------------------------------- parameters
    def derived(self, par):
        """all parafunc values, resolved by recursive substitution (any order)"""
        done = {}

        def need(name, stack):
            if name in par:
                return par[name]
            if name in done:
                return done[name]
            if name in stack:
                raise RecursionError("circular: " + name)
            if name not in self.parafunc:
                raise NameError(name)
            code = compile(self.parafunc[name], "p", "eval")
            ctx = {}
            for n in code.co_names:
                ctx[n] = self.funcs[n] if n in self.funcs else need(n, stack | {name})
            done[name] = eval(code, {"__builtins__": {}}, ctx)
            return done[name]

        for n in self.parafunc:
            need(n, frozenset())
        return {n: done[n] for n in self.parafunc}

    def full_par(self, par=None):
        p = dict(self.calib)
        if par:
            p.update(par)
        p.update(self.derived(p))
        return p

    # -------------------------------------------------------------- equations
    def context(self, par=None):
        ctx = dict(self.full_par(par))
        for v in self.vars:
            ctx[v] = Lin(0.0, {("v", v, 0): 1.0}, ("v", v, 0))
        for s in self.shocks:
            ctx[s] = Lin(0.0, {("e", s, 0): 1.0}, ("e", s, 0))
        return ctx

    def _ev(self, s, ctx):
        g = {"__builtins__": {}, "sum": sum, "range": range}
        return Lin.lift(eval(s.strip(), g, ctx))

    def linear(self, par=None):
        """list of coefficient dicts (lhs - rhs), constraint dict, observables"""
        ctx = self.context(par)
        rows = []
        for e in self.eqs:
            if "=" in e:
                l, r = e.split("=")
            else:
                l, r = e, "0"
            rows.append((self._ev(l, ctx) - self._ev(r, ctx)).d)
        l, r = self.const.split("=")
        crow = (self._ev(l, ctx) - self._ev(r, ctx)).d
        shadow = self._ev(r, ctx).d
        obs = {o: self._ev(str(x), ctx) for o, x in self.obs.items()}
        return rows, crow, shadow, obs

    def x_bar(self, par=None):
        return float(self.full_par(par).get("x_bar", -1.0))

    def qq(self, par=None):
        """the declared (diagonal) shock scale matrix"""
        p = self.full_par(par)
        n = len(self.shocks)
        Q = np.zeros((n, n))
        for i, s in enumerate(self.shocks):
            Q[i, i] = float(eval(str(self.cov[s]), {"__builtins__": {}}, p))
        return Q

    # ---------------------------------------------------- residuals on a path
    def residuals(self, X, eps, par=None, cols=None, t0=0, binding=None, pre=None):
        """max |residual| of every declared equation along the path X[t, var].

        X is a dict name -> 1d array (periods t0.. ), values before the first
        period are taken from `pre` (dict name -> list, most recent last) or 0.
        eps: dict shock -> 1d array.  `binding`: set of periods in which the
        constrained variable must equal x_bar instead of obeying its rule.
        Only periods for which all leads lie on the path are evaluated.
        """
        rows, crow, shadow, obs = self.linear(par)
        T = len(next(iter(X.values())))
        xb = self.x_bar(par)

        def val(key, t):
            kind, n, d = key
            i = t + d
            if kind == "e":
                return eps[n][i] if n in eps and 0 <= i < len(eps[n]) else 0.0
            if i >= 0:
                return X[n][i]
            if pre and n in pre and -i <= len(pre[n]):
                return pre[n][i]
            return 0.0

        worst, where = 0.0, None
        maxlead = max([k[2] for r in rows + [crow] for k in r] + [0])
        for t in range(T - maxlead):
            for j, r in enumerate(rows + [crow]):
                if j == len(rows) and binding is not None and t in binding:
                    res = X[self.cvar][t] - xb
                else:
                    res = sum(c * val(k, t) for k, c in r.items())
                if not abs(res) <= worst:
                    worst, where = abs(res), (t, j)
                    if not np.isfinite(res):
                        return np.inf, where
        return worst, where

    # --------------------------------------------------------- reference form
    def companion(self, par=None):
        """A x(+1)+B x+C x(-1)+D e=0 in which every lag and lead is at most one.

        Returns names, A, B, C, D, (crow index), shadow row (B part, C part, D part)
        """
        rows, crow, shadow, obs = self.linear(par)
        allrows = rows + [crow]
        names = list(self.vars)
        ns = len(self.shocks)
        maxlag, maxlead, slag = {}, {}, {}
        for r in allrows + [shadow]:
            for (k, n, d) in r:
                if k == "v":
                    maxlag[n] = max(maxlag.get(n, 0), -d)
                    maxlead[n] = max(maxlead.get(n, 0), d)
                else:
                    assert d <= 0
                    slag[n] = max(slag.get(n, 0), -d)
        extra = []  # (name, definition dict)
        alias = {}
        for n, m in slag.items():
            for i in range(1, m + 1):
                # z_i = e(-i): z_0 = e, z_i = z_{i-1}(-1)
                pass
            if m:
                names.append("~e0_" + n)
                extra.append({("v", "~e0_" + n, 0): 1.0, ("e", n, 0): -1.0})
                for i in range(1, m):
                    names.append("~e%d_%s" % (i, n))
                    extra.append({("v", "~e%d_%s" % (i, n), 0): 1.0, ("v", "~e%d_%s" % (i - 1, n), -1): -1.0})
                for i in range(1, m + 1):
                    alias[("e", n, -i)] = ("v", "~e%d_%s" % (i - 1, n), -1)
        for n in list(self.vars):
            prev = n
            for i in range(1, maxlag.get(n, 0)):
                nm = "~lag%d_%s" % (i, n)
                names.append(nm)
                extra.append({("v", nm, 0): 1.0, ("v", prev, -1): -1.0})
                alias[("v", n, -i - 1)] = ("v", nm, -1)
                prev = nm
            prev = n
            for i in range(1, maxlead.get(n, 0)):
                nm = "~lead%d_%s" % (i, n)
                names.append(nm)
                extra.append({("v", nm, 0): 1.0, ("v", prev, 1): -1.0})
                alias[("v", n, i + 1)] = ("v", nm, 1)
                prev = nm
        n = len(names)
        ix = {v: i for i, v in enumerate(names)}
        A, B, C, D = np.zeros((n, n)), np.zeros((n, n)), np.zeros((n, n)), np.zeros((n, ns))

        def fill(r, i):
            for key, c in r.items():
                key = alias.get(key, key)
                k, nm, d = key
                if k == "e":
                    assert d == 0
                    D[i, self.shocks.index(nm)] += c
                else:
                    (A if d == 1 else B if d == 0 else C)[i, ix[nm]] += c

        for i, r in enumerate(allrows + extra):
            fill(r, i)
        ci = len(rows)
        sB, sC, sD = np.zeros(n), np.zeros(n), np.zeros(ns)
        for key, c in shadow.items():
            key = alias.get(key, key)
            k, nm, d = key
            if k == "e":
                sD[self.shocks.index(nm)] += c
            else:
                assert d <= 0
                (sB if d == 0 else sC)[ix[nm]] += c
        return names, A, B, C, D, ci, (sB, sC, sD)

    def determinacy(self, par=None, tol=1e-6):
        """'unique', 'indeterminate', 'explosive' or 'borderline' by counting
        generalized eigenvalues of the companion pencil"""
        names, A, B, C, D, ci, sh = self.companion(par)
        n = len(names)
        # y = (x(-1), x):  [[I,0],[0,A]] y' = [[0,I],[-C,-B]] y
        L = np.block([[np.eye(n), np.zeros((n, n))], [np.zeros((n, n)), A]])
        R = np.block([[np.zeros((n, n)), np.eye(n)], [-C, -B]])
        al, be = sl.eig(R, L, right=False, homogeneous_eigvals=True)
        al, be = np.abs(al), np.abs(be)
        if np.any((al < 1e-9) & (be < 1e-9)):
            return "borderline"
        if np.any(np.abs(al - be) < tol * (al + be)):
            return "borderline"
        stable = int(np.sum(al < be))
        if stable == n:
            # rank condition: the stable subspace must be a graph over x(-1)
            *_, Z = sl.ordqz(R, L, sort="iuc", output="complex")
            sv = np.linalg.svd(Z[:n, :n], compute_uv=False)
            if sv[-1] < 1e-9:
                return "norank"
            if sv[-1] < 1e-4:
                return "borderline"
            return "unique"
        return "indeterminate" if stable > n else "explosive"

    def solve(self, par=None, iters=20000, tol=1e-13):
        """stable linear solution x = T x(-1) + R e by time iteration"""
        names, A, B, C, D, ci, sh = self.companion(par)
        n = len(names)
        T = np.zeros((n, n))
        good = False
        for i in range(iters):
            try:
                Tn = -np.linalg.solve(A @ T + B, C)
            except np.linalg.LinAlgError:
                break
            err = np.max(np.abs(Tn - T))
            T = Tn
            if err < tol:
                good = np.max(np.abs(np.linalg.eigvals(T))) < 1
                break
            if not err < 1e8:
                break
        if not good:
            # iteration can miss the stable solution if it involves a block
            # that is explosive on its own: use the stable subspace
            L = np.block([[np.eye(n), np.zeros((n, n))], [np.zeros((n, n)), A]])
            Rr = np.block([[np.zeros((n, n)), np.eye(n)], [-C, -B]])
            *_, Z = sl.ordqz(Rr, L, sort="iuc", output="complex")
            T = np.real(Z[n:, :n] @ np.linalg.inv(Z[:n, :n]))
            if not np.max(np.abs(A @ T @ T + B @ T + C)) < 1e-8 or not np.max(np.abs(np.linalg.eigvals(T))) < 1:
                raise ArithmeticError("no stable solution")
        R = -np.linalg.solve(A @ T + B, D)
        return RefSolution(self, par, names, A, B, C, D, ci, sh, T, R)


class RefSolution:
    def __init__(self, model, par, names, A, B, C, D, ci, sh, T, R):
        self.m, self.par = model, par
        self.names, self.A, self.B, self.C, self.D, self.ci = names, A, B, C, D, ci
        self.sB, self.sC, self.sD = sh
        self.T, self.R = T, R
        self.xb = model.x_bar(par)
        n = len(names)
        self.n = n
        # constrained regime: the rule is replaced by  cvar = x_bar
        self.AR, self.BR, self.CR, self.DR = A.copy(), B.copy(), C.copy(), D.copy()
        for M in (self.AR, self.BR, self.CR, self.DR):
            M[ci] = 0
        self.BR[ci, names.index(model.cvar)] = 1
        self.gR = np.zeros(n)
        self.gR[ci] = self.xb
        self._rules = {}

    def rule(self, l, k):
        """decision rule (T, R, c) today if the constraint is expected to start
        to bind in l periods and to bind for k periods"""
        if k == 0:
            return self.T, self.R, np.zeros(self.n)
        if (l, k) in self._rules:
            return self._rules[l, k]
        if l > 0:
            Tn, Rn, cn = self.rule(l - 1, k)
            A, B, C, D, g = self.A, self.B, self.C, self.D, np.zeros(self.n)
        else:
            Tn, Rn, cn = self.rule(0, k - 1)
            A, B, C, D, g = self.AR, self.BR, self.CR, self.DR, self.gR
        M = np.linalg.inv(A @ Tn + B)
        res = -M @ C, -M @ D, M @ (g - A @ cn)
        self._rules[l, k] = res
        return res

    def step(self, x, e, l, k):
        T, R, c = self.rule(l, k)
        return T @ x + R @ e + c

    def path(self, x, e, l, k, H):
        """expected path of length H from x(-1)=x, shock e today"""
        out = np.empty((H, self.n))
        e = np.asarray(e, float)
        for t in range(H):
            x = self.step(x, e, l, k)
            out[t] = x
            e = np.zeros_like(e)
            l, k = (l - 1, k) if l else (0, max(k - 1, 0))
        return out

    def shadow(self, P, x, e):
        """value of the constraint's right-hand side along the path P"""
        prev = np.vstack((x, P[:-1]))
        s = P @ self.sB + prev @ self.sC
        s[0] += self.sD @ np.asarray(e, float)
        return s

    # ------------------------------------------------ equilibrium selection
    def _shadow_maps(self, l, k):
        """shadow values in periods 0..l+k under (l,k), affine in (x, e):
        rows [period], columns [x..., e..., 1]"""
        if not hasattr(self, "_sm"):
            self._sm = {}
        if (l, k) not in self._sm:
            H = l + k + 1
            ne = len(self.sD)
            z, ze = np.zeros(self.n), np.zeros(ne)
            c = self.shadow(self.path(z, ze, l, k, H), z, ze)
            M = np.empty((H, self.n + ne + 1))
            for i in range(self.n + ne):
                v = np.zeros(self.n + ne)
                v[i] = 1
                x, e = v[: self.n], v[self.n:]
                M[:, i] = self.shadow(self.path(x, e, l, k, H), x, e) - c
            M[:, -1] = c
            self._sm[l, k] = M
        return self._sm[l, k]

    def select(self, x, e, l_max, k_max):
        """documented selection: durations of the lowest (l, k) such that the
        path under (l, k) is consistent with the constraint at the start, the
        period before the spell, first and last period of the spell and the
        period after it; (0, 0) if the unconstrained forecast stays above the
        bound for the whole horizon.  l in 0..l_max, k in 0..k_max.

        returns (l, k, flag, margin): margin is the smallest distance to a
        decision threshold that was evaluated (to recognise ties).
        """
        v = np.concatenate((np.asarray(x, float), np.asarray(e, float), [1.0]))
        marg = np.inf
        xb = self.xb

        def sh(l, k):
            return self._shadow_maps(l, k) @ v - xb

        lin = sh(l_max, 0)
        marg = min(marg, np.min(np.abs(lin)))
        if np.all(lin > 0):
            return 0, 0, 0, marg
        for l in range(l_max + 1):
            for k in range(1, k_max + 1):
                s = sh(l, k)
                rel = [s[l], s[l + k - 1], s[l + k], s[0]] + ([s[l - 1]] if l else [])
                marg = min(marg, np.min(np.abs(rel)))
                if l and (s[0] < 0 or s[l - 1] < 0):
                    continue
                if s[l + k] < 0 or s[l] > 0 or s[l + k - 1] > 0:
                    continue
                return l, k, 0, marg
        # no equilibrium: approximation of the duration
        below, k = False, 0
        while k < k_max:
            k += 1
            s = sh(0, k)[k]
            marg = min(marg, abs(s))
            if not below:
                below = s < 0
            elif s > 0:
                return 0, k, 1, marg
        return 0, k, 2, marg

    def select_many(self, X, E, l_max, k_max):
        """the same for many points at once (rows of X and E): arrays l, k, flag, margin"""
        V = np.hstack((np.atleast_2d(X), np.atleast_2d(E), np.ones((len(X), 1)))).T
        n = V.shape[1]
        xb = self.xb

        def sh(l, k):
            return self._shadow_maps(l, k) @ V - xb

        lin = sh(l_max, 0)
        marg = np.min(np.abs(lin), 0)
        L, K, F = np.zeros(n, int), np.zeros(n, int), np.zeros(n, int)
        todo = ~np.all(lin > 0, 0)
        for l in range(l_max + 1):
            for k in range(1, k_max + 1):
                if not todo.any():
                    return L, K, F, marg
                s = sh(l, k)
                rel = s[[l, l + k - 1, l + k, 0] + ([l - 1] if l else [])]
                marg = np.where(todo, np.minimum(marg, np.min(np.abs(rel), 0)), marg)
                ok = (s[l + k] >= 0) & (s[l] <= 0) & (s[l + k - 1] <= 0)
                if l:
                    ok &= (s[0] >= 0) & (s[l - 1] >= 0)
                ok &= todo
                L[ok], K[ok] = l, k
                todo &= ~ok
        below, k = np.zeros(n, bool), 0
        F[todo] = 2
        run = todo.copy()
        while k < k_max:
            k += 1
            s = sh(0, k)[k]
            marg = np.where(run, np.minimum(marg, np.abs(s)), marg)
            K[run] = k
            stop = run & below & (s > 0)
            F[stop] = 1
            run &= ~stop
            below |= s < 0
        return L, K, F, marg
