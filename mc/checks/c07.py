"""C07: functions of parameters resolve independently of the order of declaration"""
import itertools

import numpy as np

from common import Fail, fclose, quiet, write
from harness import HarnessError, in_pydsge
from refmodel import RefModel
from checks.c01 import build

ID = "C07"
HOW = "every labelled dependency graph (hence every acyclic structure in every order of declaration, and every circular one) is read by the real parser; values at several parametrizations, the shock matrix, observables and the compiled dynamics are compared with recursive substitution"
ASSUMPTIONS = ["functions of parameters are deterministic", "numerical agreement up to 1e-9 for values, 1e-6 for dynamics"]
BOUNDS = {
    "quick": "all 16 + 512 labelled digraphs (self-loops included) on two and three derived parameters, all 543 labelled DAGs on four; 3 parametrizations each; 75 functional forms incl. functions files",
    "thorough": "as quick, with functional forms on every DAG of four nodes, all 29281 DAGs on five nodes (values only), and 4 parametrizations",
}
PTS = [dict(), dict(a=0.9, b=0.2), dict(a=0.3, b=0.8, rho=0.2), dict(b=0.0)]
FUNCS = '''
import numpy as np
SHIFT = 2.0
def helper(x):
    return x**2
def foo(x):
    return helper(x) + SHIFT
def bar(x, y):
    return np.maximum(x, y) - 0.5
def cond(x, y, z):
    if x > 0.5:
        return y
    return z
def root(x):
    lo, hi = 0.0, 10.0
    for i in range(200):
        mid = (lo + hi)/2
        if mid**3 + mid > x:
            hi = mid
        else:
            lo = mid
    return lo
def five():
    return 5
def make(k):
    def f(x):
        return k*x
    return f
twice = make(2.0)
thrice = make(3.0)
inc = lambda x: x + 1
dec = lambda x: x - 1
def opt(x, y=3.0):
    return x*y
def noisy(x):
    noisy.calls = getattr(noisy, "calls", 0) + 1
    return x/2
'''


def pyfuncs():
    ns = {}
    exec(FUNCS, ns)
    return {k: ns[k] for k in ("foo", "bar", "cond", "root", "five", "helper", "twice", "thrice", "inc", "dec", "opt", "noisy")}


def graphs(n, loops):
    pairs = [(i, j) for i in range(n) for j in range(n) if loops or i != j]
    for bits in itertools.product((0, 1), repeat=len(pairs)):
        yield [list(p) for p, b in zip(pairs, bits) if b]


def acyclic(n, E):
    left, E = set(range(n)), [tuple(e) for e in E]
    while left:
        free = [i for i in left if not any(a == i and b in left for a, b in E)]
        if not free:
            return False
        left -= set(free)
    return True


def defs(n, E, style):
    """d_i depends on d_j for (i, j) in E"""
    out = []
    for i in range(n):
        dep = [j for a, j in E if a == i]
        base = ["a/%d" % (i + 2), "0.1*b + 0.2", "0.3", "a*b + 0.05", "0.2 + a**2"][i]
        e = base + "".join(" + 0.%d*d%d" % (j + 2, j) for j in dep)
        if style == 1:
            e = "(%s)/(1 + %s)" % (base, " + ".join(["exp(-d%d)" % j for j in dep] or ["0"]))
        elif style == 2:
            e = "foo(%s) - bar(%s)" % (base, ", ".join((["d%d" % j for j in dep] + ["a", "b"])[:2]))
        out.append(("d%d" % i, e))
    return out


def text(ds, usage=None):
    n = len(ds)
    use = usage or {}
    nm = [d[0] for d in ds]
    g = lambda k, alt: use.get(k) or (nm[k] if k < n else alt)
    pars = [("a", ".5"), ("b", ".4"), ("rho", ".6"), ("s1", "1"), ("x_bar", "-1")]
    return build(
        ["x", "r", "u"],
        ["x = 0.3*x(+1) - 0.2*%s*r + u" % g(0, "a"), "u = rho*u(-1) + e_u"],
        "r = 1.5*x + 0.1*%s*u" % g(2, "a"),
        ["e_u"],
        pars,
        [("o1", "x + %s" % g(1, "b")), ("o2", "r*%s" % g(3, "b"))],
        cov={"e_u": "s1 + 0.1*%s" % g(1, "b")},
        parafunc=ds,
    )


def forms():
    F = []
    for e in ("exp(a)", "log(a)", "sqrt(a)", "normpdf(a)", "normcdf(a - b)", "normppf(a)", "norminv(b)", "sqrt(exp(log(a)))", "exp(1)", "2", "0", "-1.5", "a", "a/b", "a**b", "a^2", "(a + b)**2", "1/3", "a - a", "1e-3*a", "normcdf(normppf(a))"):
        F.append(([("d0", e)], False))
    for e in ("foo(a)", "foo(foo(b))", "bar(a, b)", "bar(b, a)", "cond(a, b, 2)", "cond(b, a, 2)", "root(a)", "root(foo(a) + exp(b))", "five()", "five()*a", "helper(a) + 1", "exp(foo(a))/foo(b)", "cond(a, foo(b), root(b))", "twice(a) + thrice(a)", "thrice(b) - twice(b)", "inc(a)*dec(a)", "dec(a)/inc(a)", "opt(a)", "opt(a, b)", "opt(b, a) - opt(b)", "bar(a, b) - 2*bar(b, a)", "0.1*twice(thrice(a)) - 0.1*thrice(inc(b))", "noisy(a) + noisy(b)", "twice(a/1000000)*1000000", "foo(-a)", "foo(a) - foo(-b)", "root(1) + root(1.0)", "cond(a, 1, 2) + cond(b, 1, 2)"):
        F.append(([("d0", e)], True))
    for p in itertools.permutations([("d0", "foo(d1) + d2"), ("d1", "sqrt(d2)*a"), ("d2", "exp(b) + 1")]):
        F.append((list(p), True))
    for p in itertools.permutations([("dz", "da + 1"), ("da", "dm*2"), ("dm", "a + b")]):
        F.append((list(p), False))
    # names that contain each other
    for p in itertools.permutations([("d", "d_1 + dd"), ("dd", "a*2"), ("d_1", "dd + b")]):
        F.append((list(p), False))
    return F


def cases(tier):
    out = []
    for n in (2, 3):
        for E in graphs(n, True):
            out.append(dict(n=n, edges=E, style=0))
    for E in graphs(3, False):
        if acyclic(3, E):
            for s in (1, 2):
                out.append(dict(n=3, edges=E, style=s))
    for E in graphs(4, False):
        if acyclic(4, E):
            for s in (0, 1, 2) if tier == "thorough" else (0,):
                out.append(dict(n=4, edges=E, style=s))
    if tier == "thorough":
        for E in graphs(5, False):
            if len(E) <= 10 and acyclic(5, E):
                out.append(dict(n=5, edges=E, style=0))
    out += [dict(form=f, funcs=u) for f, u in forms()]
    out += [dict(undef=f, funcs=u) for f, u in (
        ([("d0", "nope*2")], False), ([("d0", "a"), ("d1", "d2 + 1")], False), ([("d0", "foo(a)")], False), ([("d0", "missing(a)")], True), ([("d0", "d1 + nope"), ("d1", "d0")], False),
        ([("d0", "d1"), ("d1", "nope"), ("d2", "a")], True), ([("d0", "x")], False), ([("d0", "e_u*a")], False))]
    return out


def run(case, api):
    from pydsge import DSGE

    if "form" in case or "undef" in case:
        ds = [tuple(d) for d in case.get("form") or case["undef"]]
        ok, funcs = "form" in case, case["funcs"]
    else:
        ds = defs(case["n"], case["edges"], case["style"])
        ok, funcs = acyclic(case["n"], case["edges"]), case["style"] == 2
    tx = text(ds)
    api.states += 1
    err = m = None
    try:
        m = quiet(DSGE.read, write(api, tx, funcs=FUNCS if funcs else None), nocache=True)
        quiet(m.set_par, None)
    except Exception as e:
        if not in_pydsge(e.__traceback__):
            raise
        err = e
    if not ok:
        if err is None:
            vals = [quiet(m.get_par, d[0]) for d in ds]
            raise Fail("accepted", "circular or undefined definitions %s evaluate to %s" % (ds, vals))
        api.outcome("rejected", type(err).__name__)
        api.traces += 1
        return
    if err is not None:
        raise Fail("rejected", "definitions %s were rejected: %r" % (ds, err))
    ref = RefModel(tx, pyfuncs() if funcs else None)
    names = [str(v) for v in m.vv]
    jx = [names.index(v) for v in ref.vars]
    for p in PTS[: 4 if api.tier == "thorough" else 3]:
        if p.get("b") == 0.0 and ("form" in case):
            continue
        st = dict(ref.calib, **p)
        try:
            exp = ref.derived(st)
        except (ZeroDivisionError, ValueError):
            continue
        if ref.determinacy(st) != "unique":
            raise HarnessError("bad point")
        quiet(m.set_par, [st[n] for n in ref.par_names])
        api.transitions += 1
        got = {d: quiet(m.get_par, d) for d in exp}
        d2 = quiet(m.get_par, asdict=True, roundto=12)[1]
        for d in exp:
            if not fclose(got[d], exp[d], 1e-9, 1e-9) or d not in d2 or not fclose(d2[d], exp[d], 1e-9, 1e-9):
                raise Fail("value", "%s is %s (as dict: %s), its definition yields %s at %s" % (d, got[d], d2.get(d), exp[d], p), ds)
        # values at other parameters than the current ones
        o = dict(st, a=st["a"] / 2)
        for d, v in ref.derived(o).items():
            g = quiet(m.get_par, d, npar=np.array([o[n] for n in ref.par_names]))
            if not fclose(g, v, 1e-9, 1e-9):
                raise Fail("value", "%s is %s at given parameters, its definition yields %s" % (d, g, v), ds)
        if not fclose(quiet(m.get_cov), ref.qq(st)):
            raise Fail("covariance", "shock matrix %s, expected %s" % (m.get_cov(), ref.qq(st)), ds)
        sol = ref.solve(st)
        lin = ref.linear(st)[3]
        x, s = np.zeros(sol.n), np.zeros(len(names))
        for e in ([1.0], [-0.3]):
            x = sol.step(x, e, 0, 0)
            s = np.asarray(quiet(m.t_func, s, np.array(e), linear=True)[0])
            R = x[: len(ref.vars)]
            P = dict(zip(ref.vars, R))
            E = np.array([sum(c * P[n] for (q, n, d), c in lin[o].d.items()) + lin[o].c for o in ref.observables])
            if not fclose(s[jx], R, 1e-6, 1e-6) or not fclose(np.asarray(quiet(m.obs, s), float), E, 1e-6, 1e-6):
                raise Fail("system", "compiled system does not correspond to the definitions: %s, expected %s" % (s[jx], R), ds)
        api.outcome([round(float(v), 9) for v in exp.values()])
    api.traces += 1
