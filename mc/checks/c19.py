"""C19: trajectories of the constraint value and duration maps match the transition function"""
import itertools

import numpy as np

from common import Fail, fclose, impl_state, quiet, read
from refmodel import RefModel
from checks.c03 import M, VAR, SCHED
import pranges

ID = "C19"
HOW = "for all durations (l, k) and a complete affine basis of states and shocks, the trajectory and the maps of the real code are compared with the value of the constraint's right-hand side along the reference path of the model file, in every period; all histories of parametrizations, maxima and interleaved calls are executed on one object, as results are kept between calls; the iterations of parallel (prange) loops are executed as coroutines under all schedules with one preemption (thorough: two), with uninitialised memory made visible"
ASSUMPTIONS = ["trajectory and maps are affine in the state (so the basis decides all states)", "endogenous durations are those of the transition function (decided by C04)", "numerical agreement up to 1e-6"]
SETS = [(None, None), (3, 4), (1, 7)]
CALLS = ["", "t", "k", "tk"]
N = {"quick": 2, "thorough": 3}
BOUNDS = {t: "%d model/parameter variants x 3 settings of the maxima x all (l, k) x affine basis; all histories of up to %d parametrizations x maxima x calls in between (%s); parallel loops: all orders of up to 4 iterations and all preemptions of one iteration by another before any statement (thorough: two preemptions)" % (sum(map(len, VAR.values())), N[t], CALLS) for t in N}


def cases(tier):
    out = []
    for m in VAR:
        for i in range(len(VAR[m])):
            for s in SETS:
                out.append(dict(model=m, hist=[[i, list(s), ""]]))
        pairs = [[i, list(s), c] for i in range(min(len(VAR[m]), 4)) for s in SETS for c in CALLS]
        for a in pairs:
            if N[tier] == 2:
                out.append(dict(model=m, hist=[a, None]))
            else:
                for b in pairs:
                    out.append(dict(model=m, hist=[a, b, None]))
    for m in VAR:
        for s in SCHED[tier]:
            out.append(dict(model=m, sched=list(s)))
    return out


def run_sched(case, api):
    """trajectories are the same under all schedules of the parallel loops that prepare them"""
    m = read(api, M[case["model"]])
    l_max, k_max = case["sched"]
    ne = len(m.shocks)

    def act():
        with pranges.unplanned():
            quiet(m.set_par, "calib", l_max=2, k_max=1)
            quiet(m.set_par, "calib", l_max=l_max, k_max=k_max)
        quiet(m.traj, np.zeros(int(m.dimq)), 0, 0, verbose=False)

    def observe():
        out = []
        n = int(m.dimq)
        for x in (np.zeros(n), np.linspace(-1, 1, n), -np.arange(1.0, n + 1)):
            for l in range(l_max + 2):
                for k in range(k_max + 1):
                    out.append(("the trajectory for l=%d, k=%d" % (l, k), np.asarray(quiet(m.traj, x, l, k, verbose=False), float)))
        return out

    pranges.explore(api, act, observe, "%s, l_max=%d, k_max=%d" % (case["model"], l_max, k_max), api.tier == "thorough")
    api.traces += 1


class World:
    def __init__(self, case, api):
        self.api = api
        self.text = M[case["model"]]
        self.ref = RefModel(self.text)
        self.vars = VAR[case["model"]]
        self.m = read(api, self.text)
        self.sols = {}
        self.L, self.K = 2, 17

    def sol(self, i):
        if i not in self.sols:
            self.sols[i] = self.ref.solve(self.vars[i])
        return self.sols[i]

    def set(self, i, s):
        p = self.vars[i]
        par = [float(p.get(n, self.ref.calib[n])) for n in self.ref.par_names]
        kw = {a: b for a, b in (("l_max", s[0]), ("k_max", s[1])) if b is not None}
        quiet(self.m.set_par, par, **kw)
        if s[0] is not None:
            self.L, self.K = s
        self.i = i

    def starts(self):
        m, ref, sol = self.m, self.ref, self.sol(self.i)
        n, ne = sol.n, len(ref.shocks)
        names = [str(v) for v in m.vv]
        nq = int(m.dimq) - ne
        out = []

        def add(x, s, e):
            s = np.asarray(s, float)
            out.append((x, np.concatenate((s[len(names) - nq:], e)), s, e))

        add(np.zeros(n), np.zeros(len(names)), np.zeros(ne))
        for i in range(ne):
            e = np.eye(ne)[i]
            add(np.zeros(n), np.zeros(len(names)), -1.7 * e)
            if not np.array_equal(quiet(m.shock2state, (ref.shocks[i], -1.7)), out[-1][1]):
                raise Fail("shock2state", "state of shock %s is %s, expected %s" % (ref.shocks[i], quiet(m.shock2state, (ref.shocks[i], -1.7)), out[-1][1]))
            P = sol.path(np.zeros(n), e, 0, 0, n)
            s = np.zeros(len(names))
            for t in range(min(n, 4)):
                s, f = quiet(m.t_func, s, e if t == 0 else np.zeros(ne), linear=True)
                add(P[t], s, -2.0 * e if t == 1 else np.zeros(ne))
        if all(v in ref.vars or (v.endswith("_lag") and v[:-4] in ref.vars) for v in names):
            for i in range(n):
                add(np.eye(n)[i] * (-1) ** i, impl_state(m, sol.names, np.eye(n)[i] * (-1) ** i, ref.vars), np.zeros(ne))
        return out

    def want(self, x, e, l, k, H):
        sol = self.sol(self.i)
        return sol.shadow(sol.path(x, e, l, k, H), x, e)

    def eq(self, got, want, what):
        got, want = np.asarray(got, float), np.asarray(want, float)
        scale = max(1.0, np.max(np.abs(want))) if want.size else 1.0
        self.api.transitions += 1
        if not fclose(got / scale, want / scale, 1e-6, 1e-6):
            raise Fail(what.split(" ")[0], "%s is %s, expected %s" % (what, np.round(got, 6).tolist(), np.round(want, 6).tolist()))

    def verify(self, all_lk=True):
        m, L, K = self.m, self.L, self.K
        xb = self.sol(self.i).xb
        ref = self.ref
        lks = list(itertools.product(range(L + 2), range(K + 1)))
        if not all_lk:
            lks = [(l, k) for l, k in lks if l in (0, 1, L) and k in (0, 1, 2, K)]
        for x, v, s, e in self.starts():
            self.api.states += 1
            v0 = v.copy()
            for l, k in lks:
                g = np.asarray(quiet(m.traj, v, l, k, verbose=False))
                if g.ndim != 1 or len(g) < l + k + 1:
                    raise Fail("trajectory", "trajectory for l=%d, k=%d has shape %s" % (l, k, g.shape))
                self.eq(g, self.want(x, e, l, k, len(g)), "trajectory for l=%d, k=%d" % (l, k))
            if K:
                _, lk, fl = quiet(m.t_func, s, e, return_k=True)
                l, k = (int(z) for z in lk)
                g = np.asarray(quiet(m.traj, v, verbose=False))
                self.eq(g, self.want(x, e, l, k, len(g)), "trajectory for endogenous durations l=%d, k=%d" % (l, k))
                todo = [((None, None), (l, k))] + [((a, None), (a, k)) for a in range(L + 1)] + [((None, a), (0, a)) for a in range(K + 1)]
                todo += [((a, b), (a, b)) for a, b in lks if a <= L]
                for (a, b), (a1, b1) in todo:
                    LS, KS = quiet(m.k_map, v, a, b, verbose=False)
                    if len(LS) < L + 1 or len(KS) < K:
                        raise Fail("map", "maps have %d and %d entries" % (len(LS), len(KS)))
                    what = "map over %s for l=%s, k=%s (endogenous: %d, %d)"
                    self.eq(LS, [self.want(x, e, i, b1, i + b1 + 1)[-1] - xb for i in range(len(LS))], what % ("l", a, b, l, k))
                    self.eq(KS, [self.want(x, e, a1, i, a1 + i + 1)[-1] - xb for i in range(len(KS))], what % ("k", a, b, l, k))
            if not np.array_equal(v, v0):
                raise Fail("argument", "the given state was altered")

    def touch(self, c):
        v = quiet(self.m.shock2state, (self.ref.shocks[0], -1.0))
        if "t" in c:
            quiet(self.m.traj, v, 1, 1, verbose=False)
        if "k" in c:
            quiet(self.m.k_map, v, verbose=False)


def run(case, api):
    if "sched" in case:
        return run_sched(case, api)
    w = World(case, api)

    def do(hist, full):
        for i, s, c in hist:
            w.set(i, s)
            w.touch(c)
        try:
            w.verify(full)
        except Fail as f:
            raise Fail(f.sig, "%s, history %s: %s" % (case["model"], [(w.vars[i], s, c) for i, s, c in hist], f.msg), f.detail)
        api.traces += 1

    if case["hist"][-1] is None:
        for i in range(min(len(w.vars), 4)):
            for s in SETS[1:]:
                # the history goes on, on the same object
                do(case["hist"][:-1] + [[i, list(s), ""]], False)
    else:
        do(case["hist"], True)
    api.outcome(case["model"], case["hist"][0][0], np.round(w.sol(w.i).T.sum(), 8))
