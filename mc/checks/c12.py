"""C12: parallel execution never changes results"""
import itertools

import numpy as np

import ctlpool
from common import Fail, fclose, forked, quiet, read
from checks.c11 import TEXT, REF, NAMES
from checks.c10 import frame, D1
from checks import c03, c04, c19

ID = "C12"
HOW = "every operation that uses the pool is executed under every assignment of its tasks to workers (controlled process pool: the workers are real forked processes, the scheduling decision is prescribed) and after every short history of pool operations; results are compared with the serial run of a fresh model and, task by task, with separate single runs; one run per operation on the uncontrolled pool binds the controlled one to it. The parallel loops of the preprocessing are executed as coroutines under all schedules with one preemption"
ASSUMPTIONS = ["workers only communicate through the pool (as they do in pathos)", "numerical agreement up to 1e-9"]
OPS = ["irfs", "irfs_flag", "sim", "sim_mask", "ext", "ext_lin", "ext2", "prior", "prior_ll", "mcmc", "mdd"]
LIFE = ["close", "terminate", "pool1", "pool3", "none", "debug", "prep2", "prep0", "other", "irfs", "sim", "ext", "prior", "mcmc"]
DEPTH = {"quick": 1, "thorough": 2}
TASKS = {"quick": (4, 3), "thorough": (5, 4)}
BOUNDS = {t: "operations %s under all assignments (up to renaming) of %d tasks to at most %d workers (periodically continued where there are more tasks), and after all histories of %d operations out of %s; parallel loops of the preprocessing: all orders of 3 iterations and all preemptions of one by another before any statement" % ((OPS,) + TASKS[t] + (DEPTH[t], LIFE)) for t in DEPTH}
TIMEOUT = 300

# in the order of REF.prior
S = np.array([
    [0.4, 0.5, 0.3, 0.3, 0.2, 0.4],
    [0.2, 0.9, 0.6, 0.5, -0.5, 0.7],
    [0.3, 0.3, 0.4, 0.4, 0.7, 0.5],
    [0.5, 0.7, 0.2, 0.2, 0.4, 0.6],
    [0.6, 0.2, 0.5, 0.3, -0.2, 0.3],
])
BAD = np.array([0.4, 1.3, 0.3, 0.3, 0.2, 0.4])


def cases(tier):
    n, w = TASKS[tier]
    out = []
    for op in OPS:
        out.append(dict(kind="real", op=op, cores=2))
    for op in OPS:
        for k in range(1, w + 1):
            for a in ctlpool.assignments(n, k):
                if len(set(a)) != k or (tier == "quick" and ((op == "mdd" and k != 2) or (op == "mcmc" and k == 3))):
                    pass
                else:
                    out.append(dict(kind="sched", op=op, cores=k, asg=list(a)))
    for op in OPS:
        for start in ["prep2", "prep0", "bare"]:
            if start == "bare" and op in ("prior_ll", "mcmc", "mdd"):
                continue
            for h in itertools.product(LIFE, repeat=DEPTH[tier]):
                if start == "bare" and "mcmc" in h:
                    continue
                out.append(dict(kind="life", op=op, start=start, hist=list(h)))
    for m in ("nk", "lags"):
        for loop in ("c03", "c04", "c19"):
            if m in getattr({"c03": c03, "c04": c04, "c19": c19}[loop], "VAR"):
                out.append(dict(kind="loop", op=loop, model=m, par={}, sched=[2, 2]))
    if tier == "quick":
        # enough to see every operation after every other one
        out = [c for c in out if c["kind"] != "life" or c["op"] not in ("irfs_flag", "sim_mask", "ext2", "ext_lin")]
    return out


class World:
    def __init__(self, api, start):
        self.api = api
        self.m = self.model(start)

    def model(self, start):
        # worlds are created in forked children only: the first one can take the prepared object
        m = PARSED.pop() if PARSED else read(self.api, TEXT)
        m.path = self.api.dir()
        quiet(m.load_data, frame(REF, D1))
        self.prep(m, start)
        return m

    def prep(self, m, start):
        m.fdict["filter_R"] = np.diag([0.02, 0.03])
        if start == "bare":
            # estimation was not prepared
            quiet(m.set_par, "calib", l_max=3, k_max=16)
            quiet(m.create_filter, R=m.fdict["filter_R"], N=6, reduced_form=False)
            return
        n = {"prep2": 2, "prep0": 0, "prep1": 1, "prep3": 3, "prep4": 4}[start]
        quiet(m.prep_estim, ncores=n, verbose=False, N=6, seed=2, linear=False, reduced_form=False, load_R=True)
        quiet(m.set_par, "calib")

    def life(self, h):
        m = self.m
        if h == "close":
            if getattr(m, "pool", None):
                m.pool.close()
        elif h == "terminate":
            if getattr(m, "pool", None):
                m.pool.terminate()
        elif h in ("pool1", "pool3"):
            quiet(m.create_pool, int(h[-1]))
        elif h == "none":
            m.pool = None
        elif h == "debug":
            m.debug = True
        elif h in ("prep2", "prep0"):
            self.prep(m, h)
        elif h == "other":
            o = self.model("prep2")
            quiet(o.irfs, ("e_u", 1, 0), pars=S[:2], T=2, verbose=False)
            o.pool.close()
        elif h == "irfs":
            quiet(m.irfs, ("e_z", 1, 0), pars=S[:2], T=2, verbose=False)
        elif h == "sim":
            self.do("sim")
        elif h == "ext":
            quiet(m.extract, sample=[np.array(m.par)], verbose=0, seed=3)
        elif h == "prior":
            quiet(m.get_par, "prior", nsamples=2, seed=5, verbose=False)
        elif h == "mcmc":
            self.do("mcmc", 1)

    def full(self, m, n=4):
        out = np.tile(np.array(quiet(m.get_par, "calib"), float), (n, 1))
        out[:, m.prior_arg] = S[:n]
        return out

    def do(self, op, n=4):
        """result: list of arrays, plus the current parameters afterwards"""
        m = self.m
        if op == "irfs":
            X, LK, fl = quiet(m.irfs, ("e_u", -3, 1), pars=S[:n], T=4, verbose=False)
            out = [X, LK, fl]
        elif op == "irfs_flag":
            P = S[:n].copy()
            P[1] = BAD
            X, LK, fl = quiet(m.irfs, [("e_u", -3, 0), ("e_z", 1, 1)], pars=P, T=4, verbose=False)
            keep = [i for i in range(n) if i != 1]
            out = [X[keep], np.array(LK)[:, keep], np.array(fl)[keep] * 1.0, bool(np.array(fl)[1])]
        elif op in ("sim", "sim_mask"):
            E = np.array([[[-1.5 - i, 0.2], [0.3 * i, -0.4], [0.1, 0.2 * i]] for i in range(n)])
            I = np.array([np.linspace(-0.2, 0.3, len(m.vv)) * (i + 1) for i in range(n)])
            kw = {}
            if op == "sim_mask":
                kw["mask"] = [[0.5, np.nan], [np.nan, 0], [2, 2]]
            X, LK, fl = quiet(m.simulate, dict(pars=self.full(m, n), resid=E, init=I), **kw)
            out = [X, LK[0], LK[1], fl]
        elif op in ("ext", "ext2"):
            if op == "ext":
                e = quiet(m.extract, sample=self.full(m, n), verbose=0, seed=3)
            else:
                e = quiet(m.extract, sample=self.full(m, n // 2), nsamples=2, verbose=0, seed=3)
            out = [np.array(e[k], float) for k in ("pars", "init", "flags")] + [np.array([np.array(x) for x in e["resid"]], float)]
        elif op == "ext_lin":
            R = m.filter.R
            quiet(m.create_filter, R=R, ftype="KF")
            e = quiet(m.extract, sample=self.full(m, n), verbose=0, seed=3)
            quiet(m.create_filter, R=R, N=6, reduced_form=False)
            out = [np.array(e[k], float) for k in ("pars", "init", "flags")] + [np.array([np.array(x) for x in e["resid"]], float)]
        elif op == "prior":
            out = [quiet(m.get_par, "prior", nsamples=n, seed=7, verbose=False)]
        elif op == "prior_ll":
            out = [quiet(m.prior_sampler, n, check_likelihood=True, seed=7, verbose=False)]
            quiet(m.set_par, "calib")  # the draws are tried on the model itself
        elif op in ("mcmc", "mdd"):
            p0 = np.array([S[i % 5] + 0.01 * np.sin(np.arange(6) * (i + 1) + i ** 2) for i in range(14)])
            quiet(m.mcmc, p0=p0, nsteps={"mdd": 8, "mcmc": 2 if n > 1 else 1}[op], verbose=False, seed=4)
            out = [m.get_chain(), m.get_log_prob(), m.fdict["mode_x"], m.fdict["mode_f"]]
            if op == "mdd":
                out += [quiet(m.mdd, method=k, tune=8) for k in ("laplace", "mhm")]
            # evaluations leave the model at their parameters
            quiet(m.set_par, "calib")
        out = [np.asarray(x, float) for x in out]
        out.append(np.array(m.par, float))
        # the state of the model is that at its parameters
        out.append(np.asarray(quiet(m.irfs, ("e_u", -2, 0), T=3, verbose=False)[0], float))
        return out


SERIAL = {}
PARSED = []


def serial(api, op, n):
    if (op, n) not in SERIAL:
        SERIAL[op, n] = forked(lambda: World(api, "prep0").do(op, n))
    return SERIAL[op, n]


def compare(got, want, what):
    if len(got) != len(want):
        raise Fail("results", "%s: different kind of results" % what)
    for i, (a, b) in enumerate(zip(got, want)):
        if not fclose(a, b, 1e-9, 1e-9):
            lab = {len(want) - 1: "responses of the model afterwards", len(want) - 2: "parameters of the model afterwards"}.get(i, "result %d" % i)
            raise Fail("results", "%s: %s differ from serial evaluation" % (what, lab), dict(got=np.asarray(a).tolist(), serial=np.asarray(b).tolist()) if np.size(a) < 200 else None)


def single(api, op, n, want):
    """each element of the batch is what a single run returns"""
    w = World(api, "prep0")
    m = w.m
    if op == "irfs":
        for i in range(n):
            X = quiet(m.irfs, ("e_u", -3, 1), pars=S[i], T=4, verbose=False)[0]
            if not fclose(want[0][i], np.asarray(X), 1e-9, 1e-9):
                raise Fail("batch", "element %d of the batch differs from the single run" % i)
    if op == "ext":
        P = w.full(m, n)
        for i in range(n):
            e = quiet(m.extract, sample=P[i], verbose=0, seed=3)
            if not fclose(want[3][i], np.asarray(e["resid"][0], float), 1e-9, 1e-9) or not fclose(want[1][i], np.asarray(e["init"][0], float), 1e-9, 1e-9):
                raise Fail("batch", "shocks extracted for sample %d depend on the other samples" % i)
    if op == "ext_lin":
        P = w.full(m, n)
        quiet(m.create_filter, R=m.filter.R, ftype="KF")
        for i in range(n):
            e = quiet(m.extract, sample=P[i], verbose=0, seed=3)
            if not fclose(want[3][i], np.asarray(e["resid"][0], float), 1e-9, 1e-9):
                raise Fail("batch", "shocks extracted for sample %d depend on the other samples" % i)
    if op == "sim":
        E = np.array([[[-1.5 - i, 0.2], [0.3 * i, -0.4], [0.1, 0.2 * i]] for i in range(n)])
        for i in range(n):
            x = np.linspace(-0.2, 0.3, len(m.vv)) * (i + 1)
            quiet(m.set_par, S[i])
            for t in range(3):
                x = quiet(m.t_func, x, E[i, t])[0]
                if not fclose(want[0][i, t + 1], x, 1e-9, 1e-9):
                    raise Fail("batch", "element %d of the batch of simulations differs from the single run" % i)


def run(case, api):
    op = case["op"]
    if case["kind"] == "loop":
        return {"c03": c03, "c04": c04, "c19": c19}[op].run_sched(case, api)
    n = TASKS[api.tier][0]
    if not PARSED:
        PARSED.append(read(api, TEXT))
    want = serial(api, op, n)

    def go():
        try:
            if case["kind"] == "real":
                w = World(api, "prep%d" % case["cores"])
                single(api, op, n, want)
                compare(w.do(op, n), want, "%s on the real pool" % op)
                compare(w.do(op, n), want, "%s repeated on the real pool" % op)
                if w.m.pool:
                    w.m.pool.terminate()
                return 2
            ctlpool.install()
            if case["kind"] == "sched":
                asg = case["asg"]
                ctlpool.SCHEDULE[0] = lambda i: asg[i % len(asg)]
                w = World(api, "prep%d" % case["cores"])
                compare(w.do(op, n), want, "%s with tasks assigned to workers %s" % (op, asg))
                # the workers' history must not matter either
                compare(w.do(op, n), want, "%s repeated, with tasks assigned to workers %s" % (op, asg))
            else:
                ctlpool.SCHEDULE[0] = lambda i: i
                w = World(api, case["start"])
                for h in case["hist"]:
                    w.life(h)
                compare(w.do(op, n), want, "%s after %s" % (op, [case["start"]] + case["hist"]))
            return max(1, ctlpool.LOG["tasks"])
        finally:
            ctlpool.shutdown()

    k = forked(go)
    api.states += 1
    api.transitions += k
    api.traces += 1
    api.outcome(op, case["kind"], str(np.round(np.sum(want[0]), 6)))
