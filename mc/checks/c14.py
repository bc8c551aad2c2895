"""C14: stored chains contain exactly what was sampled, through any history of runs"""
import itertools
import os
import shutil

import emcee
import numpy as np

from common import Fail, fclose, forked, quiet, write
from checks.c10 import M, frame, D1
from refmodel import RefModel

ID = "C14"
HOW = "the tree of all histories of sampler runs is executed on the real code with real HDF5 files (forked at every node, including the files); proposals are replaced through the public `moves` argument by a deterministic always-accepted one, so that the content of every stored chain is known in advance. At every node all files, accessors, kept draws and the mode are compared with a list-based model. The same histories are run with the default sampler and checked for prefix, membership of posterior values and repeatability"
ASSUMPTIONS = ["emcee's storage itself is trusted", "posterior values are compared with those of a separate model instance (C11 decides those)"]
TEXT = M["base"]
REF = RefModel(TEXT)
NW, ND = 3, 2
# (name, keyword arguments)
RUNS = {
    "fresh": dict(),
    "fresh_b": dict(suffix="_b.h5"),
    "resume": dict(resume=True),
    "resume_b": dict(resume=True, suffix="_b.h5"),
    "append": dict(append=True),
    "append_b": dict(append=True, suffix="_b.h5"),
    "tune": dict(tune=2),
    "resume_tune": dict(resume=True, tune=7, nsteps=10),
    "temp": dict(temp=0.5),
    "nwalks": dict(p0=None, nwalks=NW),
    "named": dict(backend="other.h5"),
    "memory": dict(backend=False),
    "crash": dict(crash=3),
    "resume_crash": dict(resume=True, crash=2),
}
OPS = list(RUNS) + ["session", "saveload", "set"]
DEPTH = {"quick": 3, "thorough": 4}
SETUPS = ["lin", "tr"]
DIME = ["fresh", "fresh_b", "resume", "resume_b", "append"]
BOUNDS = {t: "all histories of %d operations out of %s x with and without prior transformation (%s), 3 walkers, 5 or 10 steps; with the default sampler all histories of 3 operations out of %s" % (DEPTH[t], OPS, "with: length %d" % (DEPTH[t] - 1), DIME) for t in DEPTH}


def cases(tier):
    out = []
    for s in SETUPS:
        for a in OPS:
            d = DEPTH[tier] - (s == "tr")
            for b in OPS if d > 2 else [None]:
                out.append(dict(kind="tree", setup=s, prefix=[a] + ([b] if b else []), depth=d))
    for a in DIME:
        for b in DIME:
            for s in SETUPS:
                out.append(dict(kind="dime", setup=s, prefix=[a, b], depth=3))
    return out


class Shift(emcee.moves.Move):
    """moves each walker by a known step"""

    def __init__(self, delta, crash=None):
        self.delta, self.crash, self.no = delta, crash, 0

    def propose(self, model, state):
        if self.no == self.crash:
            raise KeyboardInterrupt
        self.no += 1
        q = state.coords + self.delta
        lp, blobs = model.compute_log_prob_fn(q)
        acc = np.ones(len(q), bool)
        return self.update(state, emcee.State(q, log_prob=lp, blobs=blobs), acc), acc


def make(path, setup):
    from pydsge import DSGE

    m = quiet(DSGE.read, path)
    quiet(m.load_data, frame(REF, D1))
    m.fdict["filter_R"] = np.diag([0.02, 0.03])
    prep(m, setup)
    return m


def prep(m, setup):
    quiet(m.prep_estim, ncores=0, verbose=False, seed=2, linear=True, load_R=True, use_prior_transform=setup == "tr")


EVAL = {}
REFM = []
WORLDS = {}


def tr(x, setup):
    """sampler space to parameters: beta prior on (0, 1), normal"""
    x = np.array(x, float)
    if setup == "tr":
        x[..., 0] = 1 / (1 + np.exp(-x[..., 0]))
    return x


class World:
    def __init__(self, api, setup):
        self.setup = setup
        self.path = write(api, TEXT)
        self.dir = os.path.dirname(self.path)
        self.m = make(self.path, setup)
        self.spare = [make(self.path, setup) for _ in range(4)]
        if not REFM:
            REFM.append(make(self.path, "lin"))
        self.ref = REFM[0]
        self.files = {}  # name -> list of (rows [n, NW, ND], log probs [n, NW])
        self.named = None
        self.current = None  # content of the last run
        self.tune = None
        self.mode = None
        # what most runs will evaluate
        for self.nrun in (1, 2, 3, 4):
            self.lp(np.array([self.p0() + (i + 1) * self.delta() for i in range(5)]))
        self.nrun = 0

    def lp(self, x, temp=1):
        out = np.empty(x.shape[:-1])
        for i in np.ndindex(*out.shape):
            key = (tuple(tr(x[i], self.setup)), temp)
            if key not in EVAL:
                EVAL[key] = float(quiet(self.ref.lprob, tr(x[i], self.setup), temp=temp))
            out[i] = EVAL[key]
        return out

    def p0(self):
        # in the sampler's space
        return np.array([[0.3, 0.4], [0.5, 0.45], [0.45, 0.6]]) + 0.01 * self.nrun

    def delta(self):
        return 0.001 * (1 + self.nrun) * np.array([[1.0, 1.0], [-1.0, 2.0], [2.0, -1.0]])

    def run_shift(self, op):
        m = self.m
        self.nrun += 1
        kw = dict(RUNS[op])
        n = kw.pop("nsteps", 5)
        crash = kw.pop("crash", None)
        delta = self.delta()
        start = kw.pop("p0", self.p0())
        resume, append = kw.get("resume", False), kw.get("append", False)
        # which file
        if kw.get("backend") is False:
            f = None
        else:
            if isinstance(kw.get("backend"), str):
                kw["backend"] = os.path.join(self.dir, kw["backend"])
                self.named = "other.h5"
            f = self.named or os.path.basename(self.path)[:-5] + (kw.get("suffix") or "_sampler.h5")
        if resume and f not in self.files:
            try:
                quiet(m.mcmc, p0=None, nsteps=n, moves=Shift(delta), verbose=False, **kw)
            except Exception:
                self.tune = None
                return
            raise Fail("resume", "resuming from a file that does not exist did not fail")
        try:
            quiet(m.mcmc, p0=None if resume else start, nsteps=n, moves=Shift(delta, crash), verbose=False, **kw)
            if crash:
                raise Fail("interrupt", "the interrupt was swallowed")
        except KeyboardInterrupt:
            n = crash  # iterations that were completed
        # what must be stored
        if resume:
            start = self.files[f][0][-1]
        elif start is None:
            got = np.asarray(m.sampler.get_chain())
            start = got[0] - delta
            best = np.array(self.mode[0] if self.mode else [0.5, 0.4])
            if got[0].shape != (NW, ND) or np.any(np.abs(start - best) > 0.01 * np.abs(best) + 1e-6) or len({tuple(r) for r in start}) < NW:
                raise Fail("start", "walkers start at %s, expected to be spread around %s" % (start.tolist(), best.tolist()))
        rows = np.array([start + (i + 1) * delta for i in range(n)])
        lps = self.lp(rows, kw.get("temp", 1))
        if f is not None and (resume or append) and f in self.files:
            rows, lps = np.vstack((self.files[f][0], rows)), np.vstack((self.files[f][1], lps))
        if f is not None:
            self.files[f] = rows, lps
        if crash:
            # the object still refers to the previous run, or to the default file
            self.tune = None
            if not hasattr(m, "sampler"):
                self.current = self.files.get(self.named or os.path.basename(self.path)[:-5] + "_sampler.h5")
            elif hasattr(m.sampler, "filename"):
                self.current = self.files[os.path.basename(m.sampler.filename)]
            return
        self.current = rows, lps
        self.tune = kw.get("tune") or n // 5
        if kw.get("temp", 1) == 1:
            k = lps[-self.tune:]
            j = np.unravel_index(np.argmax(k), k.shape)
            self.mode = tr(rows[-self.tune:][j], self.setup), k[j]

    def do(self, op):
        m = self.m
        if op in RUNS:
            self.run_shift(op)
        elif op == "set":
            quiet(m.set_par, "calib")
            quiet(m.set_par, "rho", 0.3)
            quiet(m.get_par, "prior_mean")
        elif op == "session":
            # as good as reading the file again (see C08)
            self.m = self.spare.pop()
            self.m.path = self.dir
            self.fresh_session()
            self.mode = None
        elif op == "saveload":
            from pydsge import DSGE

            quiet(m.save, verbose=False)
            self.m = quiet(DSGE.load, os.path.join(self.dir, m.name + "_meta.npz"), verbose=False)
            prep(self.m, self.setup)
            t, named = self.tune, self.named
            self.fresh_session()
            self.tune, self.named = t, named
            f = named or os.path.basename(self.path)[:-5] + "_sampler.h5"
            self.current = self.files.get(f)
        self.verify(op)

    def fresh_session(self):
        self.named, self.tune = None, None
        self.current = self.files.get(os.path.basename(self.path)[:-5] + "_sampler.h5")

    def verify(self, op):
        m = self.m
        found = sorted(f for f in os.listdir(self.dir) if f.endswith(".h5"))
        # (a failed attempt to resume may leave an empty file)
        for f in found:
            if f not in self.files and emcee.backends.HDFBackend(os.path.join(self.dir, f), read_only=True).initialized:
                raise Fail("files", "unexpected chain in %s" % f)
        for f, (rows, lps) in self.files.items():
            if f not in found:
                raise Fail("files", "chain %s is missing" % f)
            b = emcee.backends.HDFBackend(os.path.join(self.dir, f), read_only=True)
            same_chain(b.get_chain(), b.get_log_prob(), rows, lps, "file %s" % f)
            g = np.asarray(quiet(m.get_chain, backend_file=os.path.join(self.dir, f)))
            if not fclose(g, tr(rows, self.setup), 1e-9, 1e-9):
                raise Fail("access", "get_chain of file %s returns something else" % f)
        if self.current is not None:
            rows, lps = self.current
            same_chain(quiet(m.get_chain), quiet(m.get_log_prob), tr(rows, self.setup), lps, "get_chain")
            fl = np.asarray(quiet(m.get_chain, flat=True))
            if not fclose(fl, tr(rows, self.setup).reshape(-1, ND), 1e-9, 1e-9):
                raise Fail("access", "flat chain differs")
            acc = np.asarray(quiet(m.get_chain, get_acceptance_fraction=True), float)
            if not fclose(acc, np.ones(NW), 1e-9, 1e-9) and self.tune:
                raise Fail("acceptance", "acceptance fraction is %s, all were accepted" % acc)
            if self.tune:
                if int(m.get_tune) != self.tune:
                    raise Fail("tune", "%s draws are kept, expected %s" % (m.get_tune, self.tune))
        if self.mode:
            x, f = self.mode
            if not fclose(m.fdict["mode_x"], x, 1e-9, 1e-9) or not fclose(float(m.fdict["mode_f"]), f):
                raise Fail("mode", "stored mode is %s with %s, expected %s with %s" % (m.fdict["mode_x"], m.fdict["mode_f"], x, f))
            g = quiet(m.get_par, "mode", full=False)
            if not fclose(np.asarray(g, float), x, 1e-9, 1e-9):
                raise Fail("mode", "get_par('mode') is %s, expected %s" % (g, x))


def same_chain(c, l, rows, lps, what):
    c, l = np.asarray(c), np.asarray(l)
    if c.shape != rows.shape or not fclose(c, rows, 1e-9, 1e-9):
        raise Fail("chain", "%s: chain of shape %s differs from what was sampled (shape %s)" % (what, c.shape, rows.shape), dict(got=c.tolist(), want=rows.tolist()))
    if not fclose(l, lps):
        raise Fail("posterior", "%s: stored posterior values do not belong to the stored parameters" % what, dict(got=l.tolist(), want=lps.tolist()))


def branch(w, d):
    """each branch has its own copy of the files"""
    shutil.copytree(w.dir, d)
    w.dir = d
    w.path = os.path.join(d, os.path.basename(w.path))
    w.m.path = d
    if "backend_file" in w.m.fdict:
        w.m.fdict["backend_file"] = os.path.join(d, os.path.basename(str(w.m.fdict["backend_file"])))
    if hasattr(w.m, "sampler") and hasattr(w.m.sampler, "filename"):
        w.m.sampler.filename = os.path.join(d, os.path.basename(w.m.sampler.filename))


def node(w, hist, op, depth, do, ops):
    if hist:
        branch(w, w.dir + "_" + op)
    try:
        do(w, op)
    except Fail as f:
        raise Fail(f.sig, "after %s: %s" % (hist + [op], f.msg), f.detail)
    n = 1
    if len(hist) + 1 < depth:
        for o in ops:
            if o == "nwalks" and w.setup == "tr":
                continue  # initial walkers are not transformed (see DESIGN.md)
            n += forked(node, w, hist + [op], o, depth, do, ops)
    if hist:
        shutil.rmtree(w.dir)
    return n


# ------------------------------------------------------------ default sampler
def do_dime(w, op):
    m = w.m
    w.nrun += 1
    kw = dict(RUNS[op])
    n = 5
    nw = 16
    i = np.arange(nw)
    rng = np.array([0.5 + 0.2 * np.sin(2 * i + w.nrun), 0.5 + 0.1 * np.cos(3 * i + 0.1)]).T
    f = "m" + (kw.get("suffix") or "_sampler.h5")
    resume = kw.get("resume", False)
    if resume and f not in w.files:
        try:
            quiet(m.mcmc, nsteps=n, verbose=False, **kw)
        except Exception:
            return
        raise Fail("resume", "resuming from a file that does not exist did not fail")
    quiet(m.mcmc, p0=None if resume else rng, nsteps=n, verbose=False, seed=w.nrun, **kw)
    old = w.files.get(f) if (resume or kw.get("append")) else None
    b = emcee.backends.HDFBackend(os.path.join(w.dir, f), read_only=True)
    C, L = b.get_chain(), b.get_log_prob()
    n0 = 0 if old is None else len(old[0])
    if C.shape != (n0 + n, nw, ND) or L.shape != (n0 + n, nw):
        raise Fail("chain", "chain has shape %s, expected %s" % (C.shape, (n0 + n, nw, ND)))
    if n0:
        same_chain(C[:n0], L[:n0], *old, "previous part of %s" % f)
    if not fclose(L[n0:], w.lp(C[n0:])):
        raise Fail("posterior", "stored posterior values do not belong to the stored parameters")
    # walkers either stay where they were or move to a better documented place
    last = rng if not resume else old[0][-1]
    stay = [np.array_equal(C[n0, i], last[i]) for i in range(nw)]
    w.stay = getattr(w, "stay", 0) + sum(stay)
    w.files[f] = C, L
    for g, (c, l) in w.files.items():
        b = emcee.backends.HDFBackend(os.path.join(w.dir, g), read_only=True)
        same_chain(b.get_chain(), b.get_log_prob(), c, l, "file %s" % g)
    same_chain(quiet(m.get_chain), quiet(m.get_log_prob), tr(C, w.setup), L, "get_chain")
    t = n // 5
    if int(m.get_tune) != t:
        raise Fail("tune", "%s draws are kept, expected %s" % (m.get_tune, t))
    j = np.unravel_index(np.argmax(L[-t:]), L[-t:].shape)
    if not fclose(m.fdict["mode_x"], tr(C[-t:][j], w.setup), 1e-9, 1e-9) or not fclose(float(m.fdict["mode_f"]), L[-t:][j]):
        raise Fail("mode", "stored mode is not the best of the kept draws")
    if op == "fresh":
        # the same seed gives the same chain, whatever happened before
        m2 = w.spare.pop()
        m2.path = w.dir + "_again"
        os.makedirs(m2.path, exist_ok=True)
        quiet(m2.mcmc, p0=rng, nsteps=n, verbose=False, seed=w.nrun, **kw)
        if not fclose(m2.get_chain(), tr(C, w.setup), 1e-9, 1e-9):
            raise Fail("seed", "two runs with the same seed differ")


def run(case, api):
    if case["setup"] == "tr" and "nwalks" in case["prefix"]:
        return
    if case["setup"] not in WORLDS:
        WORLDS[case["setup"]] = World(api, case["setup"])
    w = WORLDS[case["setup"]]
    do = World.do if case["kind"] == "tree" else do_dime
    ops = OPS if case["kind"] == "tree" else DIME

    def go():
        h = []
        branch(w, os.path.join(api.dir(), "x"))
        for op in case["prefix"][:-1]:
            do(w, op)
            h.append(op)
        return node(w, h, case["prefix"][-1], case["depth"], do, ops)

    n = forked(go)
    api.states += n
    api.transitions += n
    api.traces += n
    api.outcome(*case["prefix"])
