"""C09: saving and loading round-trips"""
import itertools
import os
import shutil

import numpy as np
import pandas as pd

from common import Fail, fclose, forked, quiet, same
from refmodel import RefModel
from checks.c01 import build

ID = "C09"
HOW = "every state of preparation (subset of steps) is saved by the real code, then loaded in the same and in a fresh process, from the stored object and re-parsed, with the original file intact or changed, saved again and loaded again; each generation is compared with the state before saving and with the reference interpretation of the model file. For results, every pair of (path, suffix) forms is stored and read back"
ASSUMPTIONS = ["numerical agreement up to 1e-6", "parameters set by hand are not part of what is stored (the calibration, prior and mode are)"]
PRIOR = "estimation:\n  prior:\n    rho: [0.5, 0.01, 0.99, beta, 0.6, 0.1]\n    s2: [0.4, 0.01, 3, inv_gamma_dynare, 0.5, 0.1]\n"
FUNCS = "def foo(x):\n    return x**2\n"


def text(funcs):
    d = "foo(a)" if funcs else "a**2"
    return build(
        ["x", "r", "u", "z"],
        ["x = 0.3*x(+1) - d*r + u", "u = rho*u(-1) + e_u", "z = 0.5*z(-1) + 0.2*x + e_z"],
        "r = 1.5*x",
        ["e_u", "e_z"],
        [("a", ".5"), ("rho", ".6"), ("s1", ".4"), ("s2", ".3"), ("x_bar", "-1")],
        [("o1", "x + d"), ("o2", "z")],
        cov={"e_u": "s1", "e_z": "s2"},
        parafunc=[("d", d)],
    ) + PRIOR


STEPS = ["data", "par", "names", "mode", "tune"]
EST = ["", "lin", "tr", "enkf"]
LOADS = ["dump", "parse"]
PROC = ["same", "fresh"]
ALL = [a + ":" + b for a in LOADS for b in PROC]
FILES = ["default", "given", "given.npz", "sub/given"]
BOUNDS = {
    "quick": "all subsets of %s x all estimation set-ups %s x loading (re-parsed in the same process, stored object in a fresh process); the same with an earlier version (with other data, names, mode, filter) saved before in the same place, continuing with the same object or the loaded one; all forms of the file name x functions file or not x original file changed or not; all pairs of 11 path forms x 4 suffixes for stored results, loading from the stored object or re-parsed, in the same or a fresh process" % (STEPS, EST),
    "thorough": "full product of preparation states, estimation set-ups, load options, processes, file names, functions file, changed originals; all pairs of path forms x suffixes for stored results",
}
PATHS = [None, "res", "res.npz", "sub/res", "sub/res.npz", "ABS", "ABS.npz", "re.s", "n", "./dot", "re npz"]
SUFFIX = ["", "_b", ".v1", "1"]


def cases(tier):
    out = []
    subsets = [list(c) for n in range(len(STEPS) + 1) for c in itertools.combinations(STEPS, n)]
    for s in subsets:
        for e in EST:
            if e and "data" not in s:
                continue
            if tier == "quick":
                out.append(dict(kind="model", steps=s, est=e, loads=["parse:same", "dump:fresh"], file="default", funcs=True, tamper=False))
            else:
                for f in FILES:
                    for fn in (True, False):
                        for t in (False, True):
                            out.append(dict(kind="model", steps=s, est=e, loads=ALL, file=f, funcs=fn, tamper=t))
    if tier == "quick":
        for f in FILES:
            for fn in (True, False):
                for t in (False, True):
                    for s, e in ((STEPS, "lin"), (["names"], "")):
                        out.append(dict(kind="model", steps=s, est=e, loads=ALL, file=f, funcs=fn, tamper=t))
    # an earlier version was saved in the same place
    for s in subsets:
        for e in EST:
            if e and "data" not in s or not s:
                continue
            for pre in (1, 2, 3):
                for f in ("default", "given") if tier == "thorough" or len(s) in (1, 5) else ("given",):
                    out.append(dict(kind="model", steps=s, est=e, loads=ALL if tier == "thorough" else ["dump:same", "parse:fresh"][pre % 2:][:1], file=f, funcs=True, tamper=False, pre=pre))
    for p in PATHS:
        for s in SUFFIX:
            out.append(dict(kind="res", path=p, suffix=s))
    return out


DATA = pd.DataFrame(
    [[0.3, 0.2], [-0.1, 0.4], [0.2, -0.3], [0.5, 0.1], [-0.4, 0.2]],
    columns=["o1", "o2"],
    index=pd.date_range("2001-03-31", periods=5, freq="QE") if hasattr(pd.offsets, "QuarterEnd") else None,
)


def equal_entry(a, b):
    try:
        a, b = np.asarray(a), np.asarray(b)
        if a.dtype.kind in "fiub" and b.dtype.kind in "fiub":
            return fclose(a, b, 1e-9, 1e-12)
        return str(a.tolist()) == str(b.tolist())
    except Exception:
        return str(a) == str(b)


def prepare(case, root):
    """build the model, bring it to the state, save it; returns (model, expectation)"""
    from pydsge import DSGE

    p = os.path.join(root, "m.yaml")
    with open(p, "w") as f:
        f.write(text(case["funcs"]))
    if case["funcs"]:
        with open(p[:-5] + "_funcs.py", "w") as f:
            f.write(FUNCS)
    m = quiet(DSGE.read, p)
    st = case["steps"]
    if case.get("pre"):
        # an earlier version was saved before (1), and the model continues from there after loading (2)
        if "data" in st:
            quiet(m.load_data, DATA.iloc[:3] * 2)
        if "names" in st:
            m.name, m.description = "xyz", "an older version"
        if case["est"]:
            quiet(m.prep_estim, ncores=0, verbose=False, seed=4, linear=True)
            m.filter.R = np.diag([0.5, 0.7])
        if "mode" in st:
            m.fdict["mode_x"], m.fdict["mode_f"] = np.array([0.2, 0.25]), -99.0
        if "tune" in st:
            m.tune, m.backend_file = 3, os.path.join(root, "old.h5")
        if case["file"] == "default":
            quiet(m.save)
            old = os.path.join(root, m.name + "_meta.npz")
        else:
            if case["file"].startswith("sub/"):
                os.makedirs(os.path.join(root, "sub"), exist_ok=True)
            quiet(m.save, os.path.join(root, case["file"]))
            old = os.path.join(root, case["file"] if case["file"].endswith(".npz") else case["file"] + ".npz")
        if case["pre"] > 1:
            m = quiet(DSGE.load, old, force_parse=case["pre"] == 3)
            if case["est"]:
                quiet(m.load_estim, ncores=0, verbose=False)
            quiet(m.save, old)
    x = dict(name=str(m.name), descr=str(m.description), data=None, mode=None, tune=None, R=None, lprob=None, bf=None)
    if "data" in st:
        quiet(m.load_data, DATA)
        x["data"] = DATA
    if "names" in st:
        m.name, m.description = "xyz", "what it is"
        x["name"], x["descr"] = "xyz", "what it is"
    if case["est"]:
        k = dict(ncores=0, verbose=False, seed=3)
        if case["est"] == "enkf":
            k.update(N=9, linear=False)
        else:
            k.update(linear=True, use_prior_transform=case["est"] == "tr")
        quiet(m.prep_estim, **k)
        R = np.array([[0.02, 0.001], [0.001, 0.03]])
        m.filter.R = R
        x["R"] = R
        pts = [[0.5, 0.4], [0.7, 0.2]]
        if case["est"] == "tr":
            pts = [[0.1, -0.3], [1.0, 0.2]]
        x["lprob"] = [(q, float(quiet(m.lprob, np.array(q)))) for q in pts]
    if "mode" in st:
        x["mode"] = [0.44, 0.33]
        m.fdict["mode_x"] = np.array(x["mode"])
        m.fdict["mode_f"] = -12.5
    if "tune" in st:
        m.tune = 7
        m.backend_file = os.path.join(root, "zz.h5")
        x["tune"], x["bf"] = 7, m.backend_file
    if "par" in st:
        quiet(m.set_par, "rho", 0.15)
    before = np.array(quiet(m.get_par))
    f = case["file"]
    if f == "default":
        quiet(m.save)
        x["npz"] = os.path.join(root, x["name"] + "_meta.npz")
    else:
        if f.startswith("sub/"):
            os.makedirs(os.path.join(root, "sub"), exist_ok=True)
        quiet(m.save, os.path.join(root, f))
        x["npz"] = os.path.join(root, f if f.endswith(".npz") else f + ".npz")
    if not os.path.exists(x["npz"]):
        raise Fail("file", "model was not saved as %s" % os.path.basename(x["npz"]))
    if not same(before, quiet(m.get_par)):
        raise Fail("save alters", "saving changed the parameters of the model")
    if x["lprob"]:
        for q, v in x["lprob"]:
            if not fclose(quiet(m.lprob, np.array(q)), v):
                raise Fail("save alters", "saving changed the likelihood")
    return m, x


def content(fn):
    with open(fn, "rb") as f:
        return f.read()


def verify(case, x, L, npz, root, gen):
    ref = RefModel(text(case["funcs"]), {"foo": lambda v: v ** 2})
    w = "generation %d: " % gen
    if [str(v) for v in L.parameters] != list(ref.par_names) or [str(v) for v in L.shocks] != list(ref.shocks) or [str(v) for v in L.observables] != list(ref.observables):
        raise Fail("declarations", w + "parameters %s, shocks %s, observables %s" % (L.parameters, L.shocks, L.observables))
    if not fclose(quiet(L.get_par, "calib"), [ref.calib[n] for n in ref.par_names]) or not fclose(quiet(L.get_par), [ref.calib[n] for n in ref.par_names]):
        raise Fail("calibration", w + "calibration is %s" % quiet(L.get_par, "calib"))
    if {str(k): [str(e) for e in v] for k, v in L.prior.items()} != {str(k): [str(e) for e in v] for k, v in ref.yaml["estimation"]["prior"].items()}:
        raise Fail("prior", w + "prior is %s" % L.prior)
    if str(L.name) != x["name"]:
        raise Fail("name", w + "name is %s, expected %s" % (L.name, x["name"]))
    info = quiet(L.info, verbose=False)
    if "Description: %s\n" % x["descr"] not in info or "Title: %s\n" % x["name"] not in info or str(getattr(L, "description", x["descr"])) != x["descr"]:
        raise Fail("description", w + "info is %r" % info)
    if os.path.abspath(L.path) != os.path.dirname(os.path.abspath(npz)):
        raise Fail("path", w + "path is %s" % L.path)
    if (x["data"] is None) != (not hasattr(L, "data")):
        raise Fail("data", w + "data missing or appeared")
    if x["data"] is not None and not (isinstance(L.data, pd.DataFrame) and L.data.equals(x["data"]) and list(L.data.columns) == list(x["data"].columns) and L.data.index.equals(x["data"].index)):
        raise Fail("data", w + "data differs")
    if x["mode"] is None:
        try:
            v = quiet(L.get_par, "mode")
        except Exception:
            v = None
        if v is not None:
            raise Fail("mode", w + "a mode appeared")
    else:
        full = dict(ref.calib, rho=x["mode"][0], s2=x["mode"][1])
        if not fclose(quiet(L.get_par, "mode"), [full[n] for n in ref.par_names]) or not fclose(quiet(L.get_par, "mode", full=False), x["mode"]):
            raise Fail("mode", w + "mode is %s" % quiet(L.get_par, "mode", full=False))
        if float(L.fdict["mode_f"]) != -12.5:
            raise Fail("mode", w + "value at the mode is %s" % L.fdict["mode_f"])
    if x["tune"] is not None:
        if int(L.get_tune) != x["tune"] or str(L.fdict["backend_file"]) != x["bf"]:
            raise Fail("tune", w + "tune or chain file were lost")
    for par in (dict(), dict(rho=0.3, a=0.4)):
        for k, v in par.items():
            quiet(L.set_par, k, v)
        st = dict(ref.calib, **par)
        sol = ref.solve(st)
        y, z = np.zeros(sol.n), np.zeros(len(L.vv))
        vv = [str(v) for v in L.vv]
        lin = ref.linear(st)[3]
        if not fclose(quiet(L.get_par, "d"), st["a"] ** 2):
            raise Fail("functions", w + "derived parameter is %s" % quiet(L.get_par, "d"))
        for e in ([0.5, 0.1], [-0.2, 0.3], [-2.0, 0]):
            l, k, fl, mar = sol.select(y, e, *[int(v) for v in (3, 17)])
            y = sol.step(y, e, l, k) if not fl else y
            if fl:
                break
            z = np.asarray(quiet(L.t_func, z, np.array(e))[0])
            if not fclose(z[[vv.index(v) for v in ref.vars]], y[: len(ref.vars)], 1e-6, 1e-7):
                raise Fail("dynamics", w + "state is %s, expected %s" % (z, y))
            P = dict(zip(ref.vars, y))
            E = [sum(c * P[n] for (q, n, dd), c in lin[o].d.items()) + lin[o].c for o in ref.observables]
            if not fclose(quiet(L.obs, z), E):
                raise Fail("dynamics", w + "observables differ")
    if x["lprob"]:
        quiet(L.load_estim, ncores=0, verbose=False, dry_run=gen == 1)
        if not fclose(L.filter.R, x["R"]):
            raise Fail("filter", w + "measurement errors are %s" % L.filter.R)
        for q, v in x["lprob"]:
            g = float(quiet(L.lprob, np.array(q)))
            if not fclose(g, v):
                raise Fail("likelihood", w + "log posterior at %s is %s, was %s" % (q, g, v))


def check_load(case, x, load, root):
    from pydsge import DSGE

    raw = content(x["npz"])
    a = quiet(DSGE.load, x["npz"], force_parse=load == "parse")
    b = quiet(DSGE.load, x["npz"], force_parse=load == "parse")
    # a is altered, b must not be affected
    quiet(a.set_par, "rho", 0.9)
    a.name, a.description = "qq", "qq"
    a.fdict["mode_x"] = np.array([0.0, 0.0])
    a.prior["rho"][0] = 99
    a.par_fix[0] = 55
    b2 = os.path.join(root, "gen2")
    os.makedirs(b2, exist_ok=True)
    b2 = os.path.join(b2, load)
    quiet(b.save, b2)
    if content(x["npz"]) != raw:
        raise Fail("load alters", "loading altered the stored file")
    verify(case, x, b, x["npz"], root, 1)
    if content(x["npz"]) != raw:
        raise Fail("load alters", "using the loaded model altered the stored file")
    for fp in (False, True):
        c = quiet(DSGE.load, b2 + ".npz", force_parse=fp)
        verify(case, x, c, b2 + ".npz", root, 2)
    return True


def tamper(case, root):
    """the original files change after saving"""
    with open(os.path.join(root, "m.yaml"), "w") as f:
        f.write(text(case["funcs"]).replace("0.3*x(+1)", "0.1*x(+1)"))
    if case["funcs"]:
        with open(os.path.join(root, "m_funcs.py"), "w") as f:
            f.write("def foo(x):\n    return 17\n")


def run_model(case, api):
    from pydsge import DSGE

    for lp in case["loads"]:
        for load, proc in [lp.split(":")]:
            root = api.dir()

            def same_process():
                m, x = prepare(case, root)
                if case["tamper"]:
                    tamper(case, root)
                    quiet(DSGE.read, os.path.join(root, "m.yaml"))
                check_load(case, x, load, root)
                return x

            def fresh_a():
                return prepare(case, root)[1]

            def fresh_b(x):
                check_load(case, x, load, root)

            try:
                if proc == "same":
                    forked(same_process)
                else:
                    x = forked(fresh_a)
                    if case["tamper"]:
                        tamper(case, root)
                    forked(fresh_b, x)
            except Fail as f:
                raise Fail(f.sig, "%s process, %s: %s" % (proc, load, f.msg), f.detail)
            api.states += 1
            api.transitions += 5
            api.traces += 1
            shutil.rmtree(root, ignore_errors=True)
    api.outcome(case["est"], len(case["steps"]))


def run_res(case, api):
    from pydsge import DSGE

    root = api.dir()
    p = os.path.join(root, "m.yaml")
    with open(p, "w") as f:
        f.write(text(False))
    m = quiet(DSGE.read, p)
    d = os.path.join(root, "out")
    o = os.path.join(root, "abs")
    for q in (os.path.join(d, "sub"), o):
        os.makedirs(q)
    m.path = d
    m.name = "n"

    def path(q):
        return None if q is None else q.replace("ABS", os.path.join(o, "res"))

    def target(q, s):
        q = path(q)
        q = "n_res" if q is None else q
        q = q[:-4] if q.endswith(".npz") else q
        return os.path.normpath(os.path.join(d, q)) + s + ".npz"

    def res(i):
        return {"a": np.arange(6.0).reshape(2, 3) + i, "flag": i, "s": "text %d" % i, "n": np.array([np.nan, np.inf]), "obj": {"k": (1, i)}, "none": None}

    def eq(got, i):
        r = res(i)
        return isinstance(got, dict) and set(got) == set(r) and fclose(got["a"], r["a"]) and int(got["flag"]) == i and str(got["s"]) == r["s"] and fclose(got["n"], r["n"]) and np.asarray(got["obj"]).item() == r["obj"] and np.asarray(got["none"]).item() is None

    a = (case["path"], case["suffix"])
    for i, b in enumerate(itertools.product(PATHS, SUFFIX)):
        r1, r2 = res(2 * i), res(2 * i + 1)
        quiet(m.save_rdict, r1, path=path(a[0]), suffix=a[1])
        if not os.path.exists(target(*a)):
            raise Fail("file", "results stored with %s were not stored as %s" % (a, os.path.relpath(target(*a), root)))
        quiet(m.save_rdict, r2, path=path(b[0]), suffix=b[1])
        w = 2 * i if target(*a) != target(*b) else 2 * i + 1
        for q, n in ((a, w), (b, 2 * i + 1)):
            got = quiet(m.load_rdict, path=path(q[0]), suffix=q[1])
            if not eq(got, n):
                raise Fail("results", "storing %s and then %s: reading %s does not return what was stored" % (a, b, q))
        api.states += 1
        api.transitions += 4
    api.traces += 1
    api.outcome("res", os.path.basename(target(*a)))
    # nothing leaks outside of the requested places
    bad = [f for f in os.listdir(root) if f not in ("m.yaml", "out", "abs")]
    if bad:
        raise Fail("file", "unexpected files %s" % bad)
    shutil.rmtree(root, ignore_errors=True)


def run(case, api):
    (run_model if case["kind"] == "model" else run_res)(case, api)
