"""C02: a parametrization is accepted iff it has a unique stable solution"""
import itertools

import numpy as np

from common import Fail, cols, fclose, impl_state, quiet, read
from harness import in_pydsge
from refmodel import RefModel
from checks.c01 import build

ID = "C02"
HOW = "every point of the parameter lattices is compiled by the real code (in the stated order, so that points also follow each other on one object) and compared with an eigenvalue count and a time-iteration solution of the file"
ASSUMPTIONS = ["points whose eigenvalues are within 1e-6 of the unit circle, or whose pencil is singular, are skipped and counted", "numerical agreement up to 1e-6"]

M = {}
# (text, [(parameter, quick values, thorough values)], fixed structure?)
M["nk"] = (
    build(
        ["y", "p", "r", "u"],
        ["y = y(+1) - sig*(r - p(+1)) + u", "p = bet*p(+1) + kap*y + e_p", "u = rho*u(-1) + e_u"],
        "r = rr*r(-1) + phi*p + 0.1*y",
        ["e_u", "e_p"],
        [("sig", ".5"), ("bet", ".9"), ("kap", ".1"), ("phi", "1.5"), ("rho", ".7"), ("rr", ".3"), ("s", ".4"), ("x_bar", "-1")],
        [("o1", "y"), ("o2", "4*r + 1")],
        cov={"e_u": "s", "e_p": "s"},
    ),
    [
        ("phi", (-1, 0.3, 0.9, 1.4, 5), (-3, -1, 0, 0.3, 0.69, 0.71, 0.9, 1.1, 1.4, 5)),
        ("rho", (-1.3, 0, 0.7, 0.995, 1.005), (-1.3, -0.9, 0, 0.7, 0.99, 0.9999, 1.0001, 1.2)),
        ("kap", (0.1, 0.004, 1), (-0.2, 0.0005, 0.02, 0.1, 1)),
        ("sig", (0.5, 0.006, -0.5), (-0.5, 0.0007, 0.1, 0.5, 2)),
        ("rr", (0.3, 0, 1.2), (0, 0.3, 0.9, 1.2)),
    ],
)
M["hybrid"] = (
    build(
        ["x", "r", "u"],
        ["x = a*x(+1) + b*x(-1) - sig*r + u", "u = rho*u(-1) + d*e_u + f*e_v"],
        "r = phi*x + g*x(-1) + h*e_v",
        ["e_u", "e_v"],
        [("a", ".4"), ("b", ".3"), ("sig", ".5"), ("rho", ".6"), ("d", "1"), ("f", ".5"), ("phi", "1.5"), ("g", ".2"), ("h", ".3"), ("s1", ".4"), ("x_bar", "-1")],
        [("o1", "x"), ("o2", "r + u")],
    ),
    [
        ("a", (0, 0.4, 1.4), (0, 0.4, 0.9, 1.4, -0.5)),
        ("b", (0, 0.3, 1.4), (0, 0.3, 0.9, 1.4, -0.5)),
        ("sig", (0, 0.5), (0, 0.5, -0.5)),
        ("rho", (0, 0.6, 1.1), (0, 0.6, 0.95, 1.1, -0.6)),
        ("d", (0, 1), (0, 1)),
        ("f", (0, 0.5), (0, 0.5)),
        ("g", (0, 0.2), (0, 0.2, -0.4)),
        ("h", (0, 0.3), (0, 0.3)),
    ],
)
M["fwd"] = (
    build(
        ["p", "q", "r", "w"],
        ["p = a*p(+1) + b*q(+1) - c*r + e_1", "q = d*p(+1) + g*q(+1) + f*e_2", "w = z*w(-1) + p"],
        "r = phi*p",
        ["e_1", "e_2"],
        [("a", ".5"), ("b", ".2"), ("c", ".3"), ("d", ".1"), ("g", ".6"), ("f", "1"), ("z", "0"), ("phi", "1.5"), ("s1", ".4"), ("x_bar", "-1")],
        [("o1", "p - q"), ("o2", "w")],
    ),
    [
        ("a", (0, 0.5, 2), (0, 0.5, 0.9, 2)),
        ("b", (0, 0.2), (0, 0.2, -1)),
        ("d", (0, 0.4), (0, 0.4, 1)),
        ("g", (0, 0.6, 1.5), (0, 0.6, 1.5)),
        ("f", (0, 1), (0, 1)),
        ("z", (0, 0.8, 1.2), (0, 0.8, 1.2)),
        ("phi", (0, 1.5, -4), (0, 1.5, -4)),
    ],
)
M["ar2"] = (
    build(
        ["x", "r", "i"],
        ["x = a*x(-1) + b*x(-2) + c*i(-1) - d*r + e_x", "i = r + f*x(+2)"],
        "r = phi*x + k*r(-1)",
        ["e_x"],
        [("a", ".5"), ("b", ".2"), ("c", ".1"), ("d", ".2"), ("f", ".1"), ("phi", ".7"), ("k", ".2"), ("s1", "1"), ("x_bar", "-1")],
        [("o1", "x"), ("o2", "i")],
    ),
    [
        ("a", (0, 0.5, 1.5), (0, 0.5, 0.9, 1.5, -1.5)),
        ("b", (0, 0.2, -0.8), (0, 0.2, -0.8, 0.8)),
        ("c", (0, 0.1), (0, 0.1, -0.6)),
        ("f", (0, 0.1), (0, 0.1, 1)),
        ("k", (0, 0.2, -1.5), (0, 0.2, -1.5)),
        ("d", (0, 0.2), (0, 0.2)),
    ],
)
# all coefficients of a generic model with two variables
M["gen2"] = (
    build(
        ["x", "r"],
        ["x = a*x(+1) + b*x(-1) + c*r(+1) + d*r(-1) + h*r + e_x + 0.2*e_r"],
        "r = f*x + g*r(-1) + j*x(-1) + 0.5*e_r",
        ["e_x", "e_r"],
        [("a", ".4"), ("b", ".3"), ("c", ".1"), ("d", ".1"), ("h", "-0.5"), ("f", ".9"), ("g", ".2"), ("j", ".1"), ("s1", ".4"), ("x_bar", "-1")],
        [("o1", "x"), ("o2", "r")],
    ),
    [
        ("a", (0, 0.4, 1.3), (0, 0.003, 0.4, -0.7, 1.3)),
        ("b", (0, 0.3, -0.003), (0, 0.3, -0.003, 1.3)),
        ("c", (0, 0.2), (0, 0.2, -0.004)),
        ("d", (0, -0.3), (0, -0.3, 0.9)),
        ("h", (0, -0.5, 0.002), (0, -0.5, 0.002, 1.5)),
        ("f", (0, 0.9), (0, 0.9, -0.6, 0.005)),
        ("g", (0, 0.2, 0.998), (0, 0.2, 0.998, -1.2)),
        ("j", (0, 0.1), (0, 0.1)),
    ],
)
# three processes of any persistence, one of them driven by the others
M["roots"] = (
    build(
        ["u", "v", "w", "x", "r"],
        ["u = a*u(-1) + e_u", "v = b*v(-1) + c*u(-1) + e_v", "w = d*w(+1) + v + 0.2*x", "x = 0.8*x(+1) - 0.3*r + 0.1*w + u"],
        "r = f*x",
        ["e_u", "e_v"],
        [("a", ".5"), ("b", ".5"), ("c", "0"), ("d", ".9"), ("f", ".5"), ("s1", ".4"), ("x_bar", "-1")],
        [("o1", "w"), ("o2", "x")],
    ),
    [
        ("a", (-0.999, 0, 0.5, 0.97, 0.9995, 1.0005), (-1.0005, -0.999, 0, 0.5, 0.97, 0.9995, 0.99999, 1.00001, 1.0005)),
        ("b", (-1.001, 0, 0.5, 0.9, 0.998), (-1.001, 0, 0.5, 0.9, 0.998, 1.002)),
        ("c", (0, 0.0005, 2), (0, 0.0005, 0.3, 2)),
        ("d", (0, 0.9, 1.004), (0, 0.002, 0.9, 0.996, 1.004, -2)),
        ("f", (0.001, 0.5), (-0.5, 0.001, 0.5, 30)),
    ],
)
BOUNDS = {
    t: "full lattices: " + "; ".join("%s: %d points over %s" % (m, int(np.prod([len(a[1 + j]) for a in M[m][1]])), [a[0] for a in M[m][1]]) for m in M)
    for j, t in enumerate(("quick", "thorough"))
}
LOADINGS = {"d", "f", "h"}


def cases(tier):
    j = 1 if tier == "quick" else 2
    out = []
    for m in M:
        axes = [[(a[0], v) for v in a[j]] for a in M[m][1]]
        pts = [dict(p) for p in itertools.product(*axes)]
        # strided chunks: consecutive points of one chunk differ in several parameters
        n = max(1, len(pts) // 24)
        for i in range(n):
            out.append(dict(model=m, points=pts[i::n], batch=False))
    # batches
    base = [dict(phi=a, rho=b, rr=c) for a in (0.3, 1.4, 5) for b in (0.7, 1.2) for c in (0.3, 1.2)]
    for i in range(len(base)):
        out.append(dict(model="nk", points=base[i:] + base[:i], batch=True))
    return out


def accepted(m, par):
    try:
        quiet(m.set_par, par)
    except Exception as e:
        if not in_pydsge(e.__traceback__):
            raise
        return False, e
    return True, None


def check_point(m, ref, p, api):
    det = ref.determinacy(p)
    par = [ref.calib[n] if n not in p else p[n] for n in ref.par_names]
    acc, err = accepted(m, par)
    api.transitions += 1
    if det == "borderline":
        api.skipped += 1
        return None
    api.outcome(det)
    if acc != (det == "unique"):
        raise Fail("determinacy", "parameters with %s solution were %s (%r)" % ({"unique": "a unique", "indeterminate": "an indeterminate", "explosive": "no stable"}.get(det, "no unique"), "accepted" if acc else "rejected", err), p)
    if not acc:
        if not isinstance(err, (ValueError, ArithmeticError)):
            raise Fail("errortype", "parameters without unique solution raised %r instead of a ValueError" % err, p)
        return False
    sol = ref.solve(p)
    check_linear(m, ref, sol, p, api)
    return True


def check_linear(m, ref, sol, p, api, H=6):
    n, ne = sol.n, len(ref.shocks)
    names = [str(v) for v in m.vv]
    starts = [(np.zeros(n), np.eye(ne)[i]) for i in range(ne)]
    if all(v in ref.vars or (v.endswith("_lag") and v[:-4] in ref.vars) for v in names):
        starts += [(np.eye(n)[i], np.zeros(ne)) for i in range(n)]
    for x0, e in starts:
        R = sol.path(x0, e, 0, 0, H)
        s = impl_state(m, sol.names, x0, ref.vars) if np.any(x0) else np.zeros(len(names))
        X = []
        for t in range(H):
            s, flag = quiet(m.t_func, s, e if t == 0 else np.zeros(ne), linear=True)
            X.append(np.asarray(s)[: len(names)])
            api.transitions += 1
        X = np.array(X)
        scale = max(1.0, np.max(np.abs(R)))
        for v in ref.vars:
            if v not in names:
                raise Fail("variables", "variable %s is not part of the solution" % v, p)
            d = X[:, names.index(v)]
            if not fclose(d / scale, R[:, sol.names.index(v)] / scale, 1e-6, 1e-6):
                raise Fail("dynamics", "response of %s is %s, expected %s" % (v, d, R[:, sol.names.index(v)]), p)


def run(case, api):
    text = M[case["model"]][0]
    ref = RefModel(text)
    m = read(api, text)
    quiet(m.set_par, None)
    if not case["batch"]:
        for p in case["points"]:
            api.states += 1
            check_point(m, ref, p, api)
        api.traces += len(case["points"])
        return
    pars = np.array([[p.get(n, ref.calib[n]) for n in ref.par_names] for p in case["points"]], float)
    X, LK, flags = quiet(m.irfs, ("e_u", 0.5, 0), pars=pars, T=8, linear=True, verbose=False)
    X, flags = np.asarray(X, float), np.asarray(flags)
    if X.shape[:2] != (len(pars), 8) or len(flags) != len(pars):
        raise Fail("batch", "batch of %d parameter vectors returned arrays of shape %s, %s" % (len(pars), X.shape, flags.shape))
    for i, p in enumerate(case["points"]):
        api.states += 1
        api.transitions += 8
        det = ref.determinacy(p)
        if det == "borderline":
            api.skipped += 1
            continue
        api.outcome("batch", det)
        if det == "unique":
            R = ref.solve(p).path(np.zeros(ref.solve(p).n), [0.5, 0], 0, 0, 8)
            C = cols(m, X[i], ref.vars)
            if flags[i] or any(not fclose(C[v], R[:, j], 1e-6, 1e-6) for j, v in enumerate(ref.vars)):
                raise Fail("batch", "parameters %s in a batch are flagged %s or wrong: %s" % (p, flags[i], X[i][:2]), p)
        elif not flags[i] or not np.all(np.isnan(X[i])):
            raise Fail("batch", "parameters without unique solution (%s) are not flagged: %s" % (p, X[i][:2]), p)
    api.traces += 1
