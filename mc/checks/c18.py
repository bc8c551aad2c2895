"""C18: posterior statistics are computed from exactly the kept draws"""
import os
import random
import re

import emcee
import emcwrap as ew
import numpy as np
import pandas as pd

from common import Fail, fclose, quiet, write
from checks.c01 import build
from refmodel import RefModel

ID = "C18"
HOW = "chains with pairwise distinct, known draws, posterior values and acceptances are sampled and stored by the real code (through the public `moves` argument); then every accessor and statistic is executed for every argument, on every route (memory, file, reloaded model, fresh session, named file), before and after one another, and compared with plain array operations"
ASSUMPTIONS = ["emcee's storage and the formulas of emcwrap (summary table, data density) are trusted, given the draws", "random draws: membership is decided for every draw, coverage by 600 draws of at most 42 candidates", "parameters are sampled from three different priors in an order that differs from their declaration"]
PRI = [("rho", "[0.5, 0.01, 0.99, beta, 0.5, 0.1]"), ("s", "[0.4, 0.01, 3, gamma, 0.5, 0.2]"), ("sig", "[0.5, -3, 3, normal, 0.5, 0.3]")]
CALIB = dict(sig=0.5, phi=1.5, s=0.4, rho=0.6, x_bar=-0.4)


def text(nd):
    t = build(
        ["x", "r", "u"],
        ["x = 0.3*x(+1) + 0.2*x(-1) - sig*r + u + 0.3*e_x", "u = rho*u(-1) + e_u"],
        "r = phi*x + 0.2*r(-1)",
        ["e_u", "e_x"],
        [(k, repr(v)) for k, v in CALIB.items()],
        [("ox", "x + 0.1"), ("orr", "r")],
        cov={"e_u": "s", "e_x": "s"},
    )
    return t + "estimation:\n  prior:\n" + "".join("    %s: %s\n" % p for p in PRI[:nd])


ROUTES = ["mem", "file", "suffix", "load", "load_named", "fresh", "other", "again"]
# an earlier run was saved before; its model goes on, is loaded and goes on, is saved again and loaded
LATER = ["saved", "loadrun", "resaved"]
SHAPES = {"quick": [1, 3, 6], "thorough": [1, 2, 3, 4, 5, 6, 10]}


def tunes(n):
    return list(range(1, n + 1)) + [n + 2] if n < 6 else [None, 2, n - 1, n]


def cases(tier):
    out = []
    for n in SHAPES[tier]:
        for nd in (1, 2, 3):
            for nw in (nd + 1, nd + 4):
                for tune in tunes(n):
                    for tr in (False, True):
                        for r in ROUTES + (LATER if nd == 2 else []):
                            out.append(dict(n=n, nd=nd, nw=nw, tune=tune, tr=tr, route=r))
    for n, nw in ((40, 4), (13, 6), (70, 3)):
        for tr in (False, True):
            for r in ROUTES if tier == "thorough" else ["mem", "load"]:
                out.append(dict(n=n, nd=2, nw=nw, tune=n // 2, tr=tr, route=r))
    return out


BOUNDS = {t: "chains of %s iterations x 1-3 parameters x 2 numbers of walkers x all numbers of kept iterations x with and without transformation x %s (%d chains), all accessors and arguments on each, in two orders; longer chains for recent samples" % (SHAPES[t], ROUTES + LATER, len(cases(t))) for t in SHAPES}


class Table(emcee.moves.Move):
    """walks through a given table"""

    def __init__(self, rows, lps, acc):
        self.rows, self.lps, self.acc, self.i = rows, lps, acc, 0

    def propose(self, model, state):
        i, self.i = self.i, self.i + 1
        return emcee.State(self.rows[i].copy(), log_prob=self.lps[i].copy(), random_state=state.random_state), self.acc[i].copy()


def table(n, nw, nd, salt):
    """pairwise distinct draws (in the sampler's space), posterior values, acceptances"""
    k = np.arange(n * nw * nd).reshape(n, nw, nd) + 1.0
    x = 0.3 + 0.5 * np.mod(k * k * 0.6180339887 + k * 0.417 + salt * 0.137, 1.0)
    j = np.arange(n * nw).reshape(n, nw) + 1.0
    lp = -50 + 30 * np.mod(j * 0.7548776662 + salt * 0.21, 1.0)
    acc = np.mod(j * 0.5698402910 + salt * 0.3, 1.0) < 0.4
    return x, lp, acc


def par(x, tr):
    x = np.array(x, float)
    if tr:
        f = [lambda v: 1 / (1 + np.exp(-v)), np.exp, lambda v: v]
        for i in range(x.shape[-1]):
            x[..., i] = f[i](x[..., i])
    return x


DATA = pd.DataFrame({"ox": [0.2, -0.1, 0.4, 0.0, 0.3], "orr": [0.1, -0.2, 0.3, 0.1, 0.2]})
TEXTS = {}


def model(path, tr, R=True):
    from pydsge import DSGE

    m = quiet(DSGE.read, path)
    quiet(m.load_data, DATA)
    m.fdict["filter_R"] = np.diag([0.03, 0.02])
    quiet(m.prep_estim, ncores=0, verbose=False, seed=2, linear=True, load_R=True, use_prior_transform=tr)
    return m


class World:
    def __init__(self, case, api):
        from pydsge import DSGE

        self.case, self.api = case, api
        n, nw, nd, tr, r = (case[k] for k in ("n", "nw", "nd", "tr", "route"))
        self.names = [p[0] for p in PRI[:nd]]
        self.path = write(api, text(nd))
        self.dir = os.path.dirname(self.path)
        m = self.m = model(self.path, tr)
        rows, self.lps, acc = table(n, nw, nd, 1)
        self.raw = rows
        self.rows = par(rows, tr)
        self.acc = acc.mean(axis=0)
        p0 = table(1, nw, nd, 5)[0][0]
        kw = dict(tune=case["tune"])
        if r == "mem":
            kw["backend"] = False
        elif r == "suffix":
            kw["suffix"] = "_zz.h5"
        elif r == "load_named":
            kw["backend"] = os.path.join(self.dir, "named.h5")
        if r == "again" or r in LATER:
            # a different run comes first
            q = table(n + 1, nw + 1, nd, 3)
            quiet(m.mcmc, p0=table(1, nw + 1, nd, 6)[0][0], nsteps=n + 1, moves=Table(*q), verbose=False, tune=1)
            quiet(m.get_par, "post_mean")
            if r in LATER:
                quiet(m.save, verbose=False)
            if r == "loadrun":
                self.m = m = quiet(DSGE.load, os.path.join(self.dir, m.name + "_meta.npz"), verbose=False)
                quiet(m.prep_estim, ncores=0, verbose=False, seed=2, linear=True, load_R=True, use_prior_transform=tr)
        quiet(m.mcmc, p0=p0, nsteps=n, moves=Table(rows, self.lps, acc), verbose=False, **kw)
        self.tune = case["tune"] or n // 5
        self.knows_tune, self.knows_mode = True, True
        self.kw = {}
        if r in ("load", "load_named", "resaved"):
            quiet(m.save, verbose=False)
            self.m = m = quiet(DSGE.load, os.path.join(self.dir, m.name + "_meta.npz"), verbose=False)
            quiet(m.get_chain)
        elif r == "fresh":
            self.m = m = model(self.path, tr)
            self.knows_tune = self.knows_mode = False
        elif r == "other":
            # a newer chain exists; the old one is asked for by name
            old = os.path.join(self.dir, "old.h5")
            os.rename(os.path.join(self.dir, m.name + "_sampler.h5"), old)
            q = table(n + 1, nw + 1, nd, 3)
            quiet(m.mcmc, p0=table(1, nw + 1, nd, 6)[0][0], nsteps=n + 1, moves=Table(*q), verbose=False, tune=1)
            self.kw = dict(backend_file=old)
        self.print = self.fingerprint()

    def kept(self, t=None):
        return self.rows[-(t or self.tune):], self.lps[-(t or self.tune):]

    def fingerprint(self):
        m = self.m
        return [np.array(m.par, float), np.array(m.lks), np.array(m.vv, str), sorted(os.listdir(self.dir))]

    def eq(self, got, want, what, tol=1e-9):
        self.api.transitions += 1
        if not fclose(got, want, tol, tol):
            raise Fail(what.split(" ")[0], "%s is %s, expected %s" % (what, str(np.asarray(got).tolist())[:300], str(np.asarray(want).tolist())[:300]))

    def members(self, got, pool, what):
        got = np.array([np.asarray(g, float) for g in got])
        self.api.transitions += 1
        if got.ndim != 2 or got.shape[-1] != pool.shape[-1]:
            raise Fail("shape", "%s have shape %s" % (what, got.shape))
        d = np.abs(got[:, None, :] - pool[None]).max(axis=-1)
        if (d.min(axis=1) > 1e-9).any():
            raise Fail("draws", "%s are not among the draws they should be taken from: %s" % (what, got[d.min(axis=1) > 1e-9][0].tolist()))
        return d.argmin(axis=1)

    def full(self, x):
        out = np.array(list(CALIB.values()), float)
        for n, v in zip(self.names, x):
            out[list(CALIB).index(n)] = v
        return out

    def variants(self, more):
        """values of the argument `tune` (only some of them if everything was done before)"""
        n = min(self.case["n"], 6)
        out = [dict(tune=t) for t in ([n] if self.second else range(1, n + more))]
        return out + [{}] if self.knows_tune else out

    # ------------------------------------------------------------- accessors
    def a_chain(self):
        m, kw = self.m, self.kw
        self.eq(quiet(m.get_chain, **kw), self.rows, "chain")
        self.eq(quiet(m.get_chain, flat=True, **kw), self.rows.reshape(-1, self.case["nd"]), "chain (flat)")
        self.eq(quiet(m.get_log_prob, **kw), self.lps, "posterior values")
        self.eq(quiet(m.get_log_prob, flat=True, **kw), self.lps.reshape(-1), "posterior values (flat)")
        self.eq(quiet(m.get_chain, get_log_prob=True, **kw), self.lps, "posterior values (chain)")
        self.eq(quiet(m.get_chain, get_acceptance_fraction=True, **kw), self.acc, "acceptance fraction")

    def a_tune(self):
        if self.knows_tune:
            self.eq(int(self.m.get_tune), self.tune, "number of kept iterations")

    def a_mean(self):
        from pydsge.stats import post_mean

        m = self.m
        flat = lambda c: c.reshape(-1, c.shape[-1])
        for t in range(1, self.case["n"] + 2):
            self.eq(quiet(post_mean, m, tune=t), flat(self.kept(t)[0]).mean(axis=0), "mean of the last %d" % t)
        g = table(4, 3, self.case["nd"], 9)[0]
        self.eq(quiet(post_mean, m, chain=g), flat(g).mean(axis=0), "mean of a given chain")
        if not self.knows_tune:
            return
        want = flat(self.kept()[0]).mean(axis=0)
        self.eq(quiet(post_mean, m), want, "mean")
        for k in ("post_mean", "posterior_mean"):
            self.eq(quiet(m.get_par, k, full=False), want, "mean " + k)
            self.eq(quiet(m.get_par, k), self.full(want), "mean (all parameters) " + k)
            d = quiet(m.get_par, k, full=False, asdict=True)
            self.eq([float(d[n]) for n in self.names], want, "mean (dictionary) " + k, 1e-5)

    def a_set(self):
        """the posterior mean can be set, and does not depend on what was set before"""
        if not self.knows_tune:
            return
        m = self.m
        old = np.array(m.par, float)
        want = self.full(self.kept()[0].reshape(-1, self.case["nd"]).mean(axis=0))
        quiet(m.set_par, "phi", 2.0)
        self.eq(quiet(m.set_par, "post_mean"), want, "parameters set")
        self.eq(np.array(m.par, float), want, "parameters set")
        quiet(m.set_par, "phi", 1.9)
        self.eq(quiet(m.get_par, "post_mean"), want, "mean after other parameters were set")
        l = [int(x) for x in m.lks]
        quiet(m.set_par, old, l_max=l[0] - 1, k_max=l[1])

    def a_draws(self):
        if not self.knows_tune:
            return
        m, pool = self.m, self.kept()[0].reshape(-1, self.case["nd"])
        seen = set()
        for k, seed in [(1, 0), (1, 3), (2, 1)] + [(60, s) for s in range(10)]:
            g = quiet(m.get_par, "posterior" if seed % 2 else "post", full=False, nsamples=k, seed=seed)
            if len(g) != k:
                raise Fail("draws", "%d draws instead of %d" % (len(g), k))
            ix = self.members(g, pool, "posterior draws")
            seen |= set(ix.tolist())
            g2 = quiet(m.get_par, "post", nsamples=k, seed=seed)
            self.eq(g2, np.array([self.full(pool[i]) for i in ix]), "posterior draws (all parameters)")
        if len(pool) <= 42 and len(seen) < len(pool):
            raise Fail("draws", "some kept draws are never drawn (%d of %d)" % (len(seen), len(pool)))

    def a_sample(self):
        m, case = self.m, self.case
        n, nw, nd = case["n"], case["nw"], case["nd"]
        for chain, kw in ((self.rows, {}), (table(n, nw, nd, 9)[0], dict(chain=table(n, nw, nd, 9)[0]))):
            tot = n * nw
            for size in range(1, tot + 1) if tot < 40 else (1, 5, 59, 60, 61, 77, tot):
                if size > tot:
                    continue
                recent = int(np.ceil(max(60, size) / nw))
                pool = chain[-recent:].reshape(-1, nd)
                np.random.seed(size)
                g = np.asarray(quiet(m.get_sample, size, **kw))
                if g.shape != (size, nd):
                    raise Fail("sample", "sample of size %d has shape %s" % (size, g.shape))
                ix = self.members(g, pool, "a recent sample")
                if len(set(ix.tolist())) < size:
                    raise Fail("sample", "draws are repeated in a sample of size %d" % size)
            try:
                quiet(m.get_sample, tot + 1, **kw)
            except Exception:
                pass
            else:
                raise Fail("sample", "a sample larger than the chain was returned")

    def a_csv(self):
        m = self.m
        todo = self.variants(2)
        for kw in todo:
            for p in (None, os.path.join(self.dir, "draws.csv")):
                quiet(m.posterior2csv, **kw, **(dict(path=p) if p else {}))
                p = p or os.path.join(self.dir, m.name + "_posterior.csv")
                d = pd.read_csv(p, index_col=0)
                os.remove(p)
                if [str(i) for i in d.index] != self.names:
                    raise Fail("export", "exported draws are labelled %s, expected %s" % (list(d.index), self.names))
                self.eq(d.values.T, self.kept(kw.get("tune"))[0].reshape(-1, self.case["nd"]), "exported draws with %s" % kw)

    def a_summary(self):
        m, nd = self.m, self.case["nd"]
        todo = self.variants(1)
        pri = {k: eval(v.replace("beta", "'b'").replace("gamma", "'g'").replace("normal", "'n'")) for k, v in PRI[:nd]}
        for kw in todo:
            for given in (None, table(self.case["n"], self.case["nw"], nd, 9)[0]):
                rows, lps = self.kept(kw.get("tune"))
                if given is not None:
                    rows = given[-(kw.get("tune") or self.tune):]
                out = []
                a = {} if given is None else dict(chain=given)
                res = quiet(m.mcmc_summary, out=out.append, **a, **kw)
                if [str(i) for i in res.index] != self.names:
                    raise Fail("summary", "labels of the summary are %s" % list(res.index))
                flat = rows.reshape(-1, nd)
                self.eq(res["mean"].values, flat.mean(axis=0), "summary: mean with %s" % kw)
                self.eq(res["sd"].values, flat.std(axis=0), "summary: sd with %s" % kw)
                self.eq(res["mode"].values, flat[lps.argmax()], "summary: mode with %s" % kw)
                self.eq(res["pst_mean"].values.astype(float), [v[-2] for v in pri.values()], "summary: prior mean")
                ref = quiet(ew.mcmc_summary, rows, lps, priors=m.prior, out=lambda x: None)
                for c in ref.columns:
                    if list(ref[c].map(str)) != list(res[c].map(str)) and not fclose(pd.to_numeric(res[c], errors="coerce"), pd.to_numeric(ref[c], errors="coerce")):
                        raise Fail("summary", "column %s of the summary differs with %s" % (c, kw))
                txt = " ".join(str(o) for o in out)
                f = re.search(r"acceptance fraction:\s*([\d.]+)", txt)
                if f and abs(float(f.group(1)) - self.acc.mean()) > 6e-4:
                    raise Fail("summary", "acceptance fraction is reported as %s, expected %s" % (f.group(1), self.acc.mean()))

    def a_mdd(self):
        m, nd = self.m, self.case["nd"]
        if nd < 2:
            return
        todo = self.variants(1)
        for kw in todo:
            rows, lps = self.kept(kw.get("tune"))
            given = table(8, 4, nd, 9)
            for c, l, a in ((rows.reshape(-1, nd), lps.reshape(-1), kw), (given[0].reshape(-1, nd), given[1].reshape(-1), dict(chain=given[0].reshape(-1, nd), lprobs=given[1].reshape(-1)))):
                if len(c) < nd + 2:
                    continue
                lap = 0.5 * nd * np.log(2 * np.pi) + 0.5 * np.linalg.slogdet(np.cov(c.T))[1] + l.max()
                self.eq(quiet(m.mdd, **a), lap, "data density (Laplace) with %s" % kw, 1e-7)
                self.eq(quiet(m.mdd, method="laplace", **a), lap, "data density (Laplace) with %s" % kw, 1e-7)
                ref = quiet(ew.mdd_harmonic_mean, c, l, pool=None)
                self.eq(quiet(m.mdd, method="mhm", **a), ref, "data density (harmonic mean) with %s" % kw, 1e-7)

    def a_mode(self):
        if not self.knows_mode:
            return
        rows, lps = self.kept()
        want = rows.reshape(-1, self.case["nd"])[lps.argmax()]
        for k in ("mode", "mcmc_mode", "post_mode", "best"):
            self.eq(quiet(self.m.get_par, k, full=False), want, "mode " + k)
            self.eq(quiet(self.m.get_par, k), self.full(want) if k != "best" else self.current(want), "mode (all parameters) " + k)

    def current(self, x):
        out = np.array(self.m.par, float)
        for n, v in zip(self.names, x):
            out[list(CALIB).index(n)] = v
        return out

    def a_info(self):
        t = quiet(self.m.info, verbose=False)
        f = re.search(r"Last (\d+) of (\d+) samples", t)
        if self.knows_tune and f and (int(f.group(1)), int(f.group(2))) != (self.tune, self.case["n"]):
            raise Fail("info", "info states %r, expected the last %d of %d" % (f.group(0), self.tune, self.case["n"]))
        for lab, v in (("Parameters", self.case["nd"]), ("Chains", self.case["nw"])):
            f = re.search(lab + r": (\d+)", t)
            if f and int(f.group(1)) != v:
                raise Fail("info", "info states %r, expected %d" % (f.group(0), v))


ORDER = ["chain", "tune", "mean", "draws", "sample", "csv", "summary", "mdd", "mode", "info", "set"]


def run(case, api):
    w = World(case, api)
    st = random.getstate()
    todo = ["chain"] if case["route"] == "other" else ORDER + ORDER[::-1]
    for i, a in enumerate(todo):
        w.second = i >= len(ORDER)
        try:
            getattr(w, "a_" + a)()
            for x, y in zip(w.fingerprint(), w.print):
                if not np.array_equal(x, y):
                    raise Fail("altered", "the model or its files were altered: %s, before %s" % (x, y))
        except Fail as f:
            raise Fail(f.sig, "%s (route %s, %s): %s" % (a, case["route"], {k: case[k] for k in ("n", "nw", "nd", "tune", "tr")}, f.msg), f.detail)
        api.states += 1
    random.setstate(st)
    api.traces += 1
    api.outcome(case["route"], case["tune"], case["tr"], np.round(w.kept()[0].mean(), 8))
