"""C16: models from dictionaries behave as the same model from a file"""
import copy
import itertools

import numpy as np

from common import Fail, fclose, forked, quiet, read
from refmodel import RefModel
from checks import c02, c03, c10

ID = "C16"
HOW = "dictionaries are generated from the coefficients of the model file (by the reference interpreter, for all stated orders, scalings and optional entries), processed by the real code, and compared with the reference solution on all durations and an affine basis of states, with the documented selection on a lattice, and with the responses of the file-based model; the tree of all histories of processing, modifying dictionaries and modifying results is executed with forking"
ASSUMPTIONS = ["the transition is affine given durations", "numerical agreement up to 1e-6, ties of the selection are skipped"]
M = {k: c03.M[k] for k in ("nk", "hybrid", "fwd", "small")}
M["square"] = c10.M["square"]
M["base"] = c10.M["base"]
M["asset"] = c03.M["asset"]
VAR = {
    "nk": [{}, dict(rr=0), dict(x_bar=0.0)],
    "hybrid": [{}, dict(g=0, h=0), dict(a=0), dict(b=0, g=0), dict(f=0, x_bar=-0.3)],
    "fwd": [{}, dict(f=0)],
    "small": [{}],
    "square": [{}, dict(rho=0)],
    "base": [{}, dict(x_bar=0.0)],
    "asset": [{}],
}
FORMS = [
    dict(),
    dict(rev=1),
    dict(scale=1, fscale=-2.0),
    dict(fscale=3.0, noobs=1),
    dict(rev=1, eqrev=1, nofd=1),
    dict(oneobs=1, floatshape=1),
    dict(solution=1),
    dict(solution=1, rev=1, noobs=1),
    dict(noxbar=1, eqrev=1),
]
SET = {"quick": [(None, None), (2, 5), (4, 9)], "thorough": [(None, None), (2, 1), (2, 5), (4, 9), (3, None), (None, 25), (7, 3)]}
HOPS = ["A", "A25", "B", "Amod", "Ainplace", "result", "force", "Aobs", "Bcopy"]
DEPTH = {"quick": 3, "thorough": 4}
BOUNDS = {t: "%d model/parameter variants x %d forms of the dictionary x %d settings of (l_max, k_max) x all durations x affine basis, lattice of 5 sizes per state direction and shock; all histories of %d operations out of %s" % (sum(map(len, VAR.values())), len(FORMS), len(SET[t]), DEPTH[t], HOPS) for t in SET}


def cases(tier):
    out = []
    for m in VAR:
        for p in VAR[m]:
            for f in FORMS:
                for s in SET[tier]:
                    out.append(dict(kind="form", model=m, par=p, form=f, set=list(s)))
    for a in HOPS:
        for b in HOPS:
            out.append(dict(kind="hist", prefix=[a, b]))
    return out


def mdict(ref, p, form):
    """the dictionary, written from the coefficients of the file"""
    names, A, B, C, D, ci, (sB, sC, sD) = ref.companion(p)
    assert names == list(ref.vars)
    rows = [i for i in range(len(A)) if i != ci]
    vs = list(names)
    if form.get("rev"):
        vs = vs[::-1]
    if form.get("eqrev"):
        rows = rows[::-1]
    ix = [names.index(v) for v in vs]
    sc = np.array([(-1.0) ** i * (i + 1) if form.get("scale") else 1.0 for i in range(len(rows))])[:, None]
    f = form.get("fscale", 1.0)
    d = dict(
        vars=np.array(vs),
        shocks=list(ref.shocks),
        const_var=ref.cvar,
        AA=A[rows][:, ix] * sc,
        BB=B[rows][:, ix] * sc,
        CC=C[rows][:, ix] * sc,
        DD=D[rows] * sc,
        fb=B[ci][ix] * f,
        fc=C[ci][ix] * f,
        fd=D[ci] * f,
        x_bar=ref.x_bar(p),
    )
    if not np.any(d["fd"]) and form.get("nofd"):
        del d["fd"]
    if form.get("noxbar") and ref.x_bar(p) == -1:
        del d["x_bar"]
    if not form.get("noobs"):
        lin = ref.linear(p)[3]
        obs = list(ref.observables)[: 1 if form.get("oneobs") else None]
        d["observables"] = obs
        d["ZZ0"] = np.array([[lin[o].d.get(("v", v, 0), 0.0) for v in vs] for o in obs])
        d["ZZ1"] = np.array([lin[o].c for o in obs])
    return d


def frozen(d):
    return {k: copy.deepcopy(v) for k, v in d.items()}


def unchanged(d, c):
    return set(d) == set(c) and all(np.array_equal(np.asarray(d[k]), np.asarray(c[k])) and type(d[k]) is type(c[k]) for k in c)


def state_of(names, ref, x):
    """reference variables -> state vector of the processed model"""
    out = np.zeros(len(names))
    for i, v in enumerate(names):
        out[i] = x[ref.index(v[:-4] if v.endswith("_lag") else v)]
    return out


def verify(o, ref, sol, p, d, L, K, api, deep=True):
    names = [str(v) for v in o.vv]
    n, ne = sol.n, len(ref.shocks)
    known = [v for v in sol.names if v in names]
    if set(known) != set(sol.names) or any(not (v in sol.names or (v.endswith("_lag") and v[:-4] in sol.names)) for v in names):
        raise Fail("variables", "variables of the model are %s, expected %s" % (names, sol.names))
    jx = [names.index(v) for v in sol.names]
    lin = ref.linear(p)[3]
    obs = d.get("observables")
    pts = [(np.zeros(n), np.zeros(ne))] + [(np.eye(n)[i], np.zeros(ne)) for i in range(n)] + [(np.zeros(n), np.eye(ne)[i]) for i in range(ne)]
    LK = list(itertools.product(range(L + 1), range(K + 1)))
    if not deep:
        LK = [(0, 0), (1, 2), (L, K)]
    for l, k in LK:
        for x, e in pts:
            s = state_of(names, sol.names, x)
            got, lk, flag = quiet(o.t_func, s, e, set_k=(l, k), return_k=True)
            want = sol.step(x, e, l, k)
            scale = max(1.0, np.max(np.abs(want)))
            if not fclose(np.asarray(got)[jx] / scale, want / scale, 1e-6, 1e-6):
                raise Fail("transition", "l=%d, k=%d: state %s, shocks %s lead to %s, expected %s" % (l, k, x.tolist(), e.tolist(), np.asarray(got)[jx].tolist(), want.tolist()))
            api.states += 1
            api.transitions += 1
            if obs and l < 2 and k < 3:
                w = np.array([lin[q].c + sum(a * want[sol.names.index(v)] for (_, v, _), a in lin[q].d.items()) for q in obs])
                (q, z), fl = quiet(o.t_func, s, e, set_k=(l, k), get_obs=True)
                if not fclose(np.asarray(z) / scale, w / scale, 1e-6, 1e-6):
                    raise Fail("observables", "observables %s are %s, expected %s" % (obs, np.asarray(z).tolist(), w.tolist()))
                z = quiet(o.obs, np.asarray(got))
                if not fclose(np.asarray(z) / scale, w / scale, 1e-6, 1e-6):
                    raise Fail("observables", "observables of a state %s are %s, expected %s" % (obs, np.asarray(z).tolist(), w.tolist()))
    # endogenous durations
    for c in (-3.0, -1.1, -0.4, 0.7, 2.3) if deep else (-3.0, 0.7):
        for x, e in pts[1:]:
            x, e = c * x, c * e
            l, k, flag, marg = sol.select(x, e, L, K)
            if marg < 1e-6:
                api.skipped += 1
                continue
            got, lk, fl = quiet(o.t_func, state_of(names, sol.names, x), e, return_k=True)
            if (fl != 0) != (flag != 0):
                raise Fail("flag", "state %s, shocks %s: flag %s, expected %s" % (x.tolist(), e.tolist(), fl, flag))
            if not flag:
                want = sol.step(x, e, l, k)
                if tuple(int(v) for v in lk) != (l, k) or not fclose(np.asarray(got)[jx], want):
                    raise Fail("durations", "state %s, shocks %s: durations %s, expected %s" % (x.tolist(), e.tolist(), lk, (l, k)))
            api.states += 1
            api.transitions += 1


def solution(ref, sol, o, p):
    """matrices of the unconstrained solution in the ordering of the processed model"""
    st, ct = [str(v) for v in o.svv], [str(v) for v in o.cvv]
    col = lambda v: sol.names.index(v[:-4] if v.endswith("_lag") else v)
    ne = len(ref.shocks)
    T = sol.T[:, [col(v) for v in st]]
    H = np.hstack((T, sol.R))
    gx = np.array([H[col(v)] for v in ct]).reshape(len(ct), len(st) + ne)
    hx = np.vstack(([H[col(v)] for v in st] + [np.zeros((ne, len(st) + ne))])) if st else np.zeros((ne, ne))
    return gx, hx


def tied(ref, sol, shocks, T, L, K):
    """whether the durations along the responses are ambiguous"""
    x = np.zeros(sol.n)
    for t in range(T):
        e = np.zeros(len(ref.shocks))
        for s, v, w in shocks:
            if w == t:
                e[list(ref.shocks).index(s)] = v
        l, k, flag, marg = sol.select(x, e, L, K)
        if marg < 1e-6:
            return True
        x = sol.step(x, e, l, k)
    return False


def run_form(case, api):
    from pydsge.gensys import gen_sys_from_dict

    text = M[case["model"]]
    ref, p = RefModel(text), case["par"]
    sol = ref.solve(p)
    d = mdict(ref, p, case["form"])
    l_max, k_max = case["set"]
    kw = {a: b for a, b in (("l_max", l_max), ("k_max", k_max)) if b is not None}
    L = 3 if l_max is None else l_max + 1
    K = 17 if k_max is None else k_max
    if case["form"].get("solution"):
        o = quiet(gen_sys_from_dict, mdict(ref, p, case["form"]), verbose=False, **kw)
        d["gx"], d["hx"] = solution(ref, sol, o, p)
    c = frozen(d)
    o = quiet(gen_sys_from_dict, d, verbose=False, **kw)
    if not unchanged(d, c):
        raise Fail("argument", "the dictionary was altered")
    if list(np.asarray(o.lks)) != [L, K]:
        raise Fail("settings", "maxima are %s, expected %s" % (o.lks, [L, K]))
    verify(o, ref, sol, p, d, L, K, api)
    # the same model from the file
    m = read(api, text)
    quiet(m.set_par, [float(p.get(q, ref.calib[q])) for q in ref.par_names], l_max=L - 1, k_max=K)
    vs = list(ref.vars)
    for i, e in enumerate(ref.shocks):
        for sz in (-2.5, 0.8):
            tie = tied(ref, sol, [(e, sz, 0)], 9, L, K)
            api.skipped += tie
            for kk in (dict(), dict(linear=True), dict(set_k=(1, 2)), dict(set_k=3)):
                if tie and not kk:
                    continue
                a = quiet(m.irfs, (e, sz, 0), T=8, verbose=False, **kk)
                b = quiet(o.irfs, (e, sz, 0), T=8, verbose=False, **kk)
                api.transitions += 8
                if not fclose(b[0][vs].values, a[0][vs].values) or not fclose(b[1], a[1]) or bool(b[2]) != bool(a[2]):
                    raise Fail("irfs", "responses to %s of size %s (%s) differ from the model file: %s, expected %s" % (e, sz, kk, b[0][vs].values[:3].tolist(), a[0][vs].values[:3].tolist()))
    sh = [(e, -1.5 + i, i) for i, e in enumerate(ref.shocks)]
    a, b = (quiet(z.irfs, sh, T=6, verbose=False) for z in (m, o))
    tie = tied(ref, sol, sh, 7, L, K)
    api.skipped += tie
    if not tie and not fclose(b[0][vs].values, a[0][vs].values):
        raise Fail("irfs", "responses to %s differ from the model file" % sh)
    # again, from the cache
    o2 = quiet(gen_sys_from_dict, frozen(d), verbose=False, **kw)
    verify(o2, ref, sol, p, d, L, K, api, deep=False)
    api.traces += 1
    api.outcome(case["model"], round(float(np.abs(a[0][vs].values).sum()), 6))


# -------------------------------------------------------------------- histories
class World:
    def __init__(self):
        self.ref = {"A": RefModel(M["hybrid"]), "B": RefModel(M["nk"])}
        self.sol = {}
        self.A = mdict(self.ref["A"], {}, {})
        self.B = mdict(self.ref["B"], {}, dict(noobs=1))
        self.pA = {}
        self.last = None
        self.results = []  # (object, reference, solution, parameters, dict, L, K)

    def solved(self, r, p):
        key = (r, tuple(sorted(p.items())))
        if key not in self.sol:
            self.sol[key] = self.ref[r].solve(p)
        return self.sol[key]

    def process(self, r, p, d, api, **kw):
        from pydsge.gensys import gen_sys_from_dict

        c = frozen(d)
        o = quiet(gen_sys_from_dict, d, verbose=False, **kw)
        if not unchanged(d, c):
            raise Fail("argument", "the dictionary was altered")
        L, K = kw.get("l_max"), kw.get("k_max")
        L, K = 3 if L is None else L + 1, 17 if K is None else K
        t = (o, self.ref[r], self.solved(r, p), p, c, L, K)
        verify(*t, api, deep=False)
        if list(np.asarray(o.lks)) != [L, K]:
            raise Fail("settings", "maxima are %s, expected %s" % (o.lks, [L, K]))
        # models that were returned earlier are not affected
        for q in self.results:
            verify(*q, api, deep=False)
        self.results.append(t)

    def do(self, op, api):
        if op == "A":
            self.process("A", self.pA, self.A, api)
        elif op == "A25":
            self.process("A", self.pA, self.A, api, l_max=2, k_max=5)
        elif op == "B":
            self.process("B", {}, self.B, api)
        elif op == "Bcopy":
            self.process("B", {}, dict(reversed(list(frozen(self.B).items()))), api)
        elif op == "Amod":
            p = dict(self.pA, x_bar=-0.25)
            self.process("A", p, dict(self.A, x_bar=-0.25), api)
        elif op == "Ainplace":
            # change the matrices of the very same dictionary
            self.pA = dict(self.pA, b=0.55 if self.pA.get("b") != 0.55 else 0.3)
            n = mdict(self.ref["A"], self.pA, {})
            for k in ("AA", "BB", "CC", "DD", "fb", "fc", "fd"):
                self.A[k][...] = n[k]
            self.process("A", self.pA, self.A, api)
        elif op == "Aobs":
            d = mdict(self.ref["A"], self.pA, dict(oneobs=1))
            self.process("A", self.pA, d, api)
        elif op == "force":
            self.process("A", self.pA, self.A, api, force_processing=True)
        elif op == "result" and self.results:
            # whoever got a model may do with it whatever they like
            o = self.results.pop()[0]
            for a in o.precalc_mat:
                a[...] = 0
            o.sys[1][...] = 0
            o.vv[0] = "?"
            o.x_bar = -7
            o.lks[0] = 1
            o.shocks.append("?")
            o.fdict["x_bar"] = -9


def node(w, hist, op, depth, api):
    try:
        w.do(op, api)
    except Fail as f:
        raise Fail(f.sig, "after %s: %s" % (hist + [op], f.msg), f.detail)
    n = 1
    if len(hist) + 1 < depth:
        for o in HOPS:
            n += forked(node, w, hist + [op], o, depth, api)
    return n


def run_hist(case, api):
    def go():
        w = World()
        w.do(case["prefix"][0], api)
        return node(w, case["prefix"][:1], case["prefix"][1], DEPTH[api.tier], api)

    n = forked(go)
    api.states += n
    api.transitions += n
    api.traces += n


def run(case, api):
    (run_form if case["kind"] == "form" else run_hist)(case, api)
