"""C01: what is compiled is the model that is written in the file."""

import itertools

import numpy as np

from common import cols, fclose, quiet, raises, read
from harness import Fail
from refmodel import RefModel

ID = "C01"
HOW = (
    "bounded-exhaustive enumeration of model files over a grammar; each file is read by the real parser and "
    "compiled, and its responses are compared with an independent interpreter of the same file"
)
BOUNDS = {
    "quick": "all files of the grammar: leads 0..5, lags 0..5, AR-lag 1..5, shock lags 0..4, 5 constraint forms, lead of the "
    "constrained variable (at most two of these beyond the simplest); all sets of distributed lags up to 5 and leads up to 3 and of lagged shocks; 1..11 processes, 1..6 shocks; all subsets of variables with constants in an observable; all orderings of variables, equations, shocks and parameters of a 4-variable model; all syntax "
    "variants; identifiers; observables; malformed files",
    "thorough": "as quick with leads/lags 0..4, the full cross product without exclusions, two-variable lag/lead products and hash seeds",
}
ASSUMPTIONS = [
    "first-order (linear) semantics at the zero steady state, as documented",
    "numerical agreement up to 1e-6 relative",
]


def term(v, d):
    return v if d == 0 else "%s(%+d)" % (v, d)


def build(variables, eqs, con, shocks, pars, obs, cov=None, parafunc=None, mark="-", name="m"):
    t = "declarations:\n  name: '%s'\n  variables: [%s]\n" % (name, ", ".join(variables))
    t += "equations:\n  model:\n" + "".join("    %s %s\n" % (mark, e) for e in eqs)
    t += "  constraint:\n" + "".join("    %s %s\n" % (mark, c) for c in ([con] if isinstance(con, str) else con))
    if obs:
        t += "  observables:\n" + "".join("    %s: %s\n" % (k, v) for k, v in obs)
    t += "calibration:\n  parameters:\n" + "".join("    %s: %s\n" % (k, v) for k, v in pars)
    if parafunc:
        t += "  parafunc:\n" + "".join("    %s: %s\n" % (k, v) for k, v in parafunc)
    t += "  covariances:\n" + "".join("    %s: %s\n" % (s, (cov or {}).get(s, "s1")) for s in shocks)
    return t


PARS = [("rho", ".6"), ("phi", "1.5"), ("sig", ".5"), ("c1", ".3"), ("s1", ".4"), ("x_bar", "-1")]
OBS = [("o1", "x + c1"), ("o2", "2*r - u + 0.5")]

CON = {
    "0": "r = phi*x",
    "l": "r = 0.5*r(-1) + phi*x",
    "s": "r = phi*x + 0.7*e_r",
    "x": "r = phi*x - 0.2*x(-1)",
    "ls": "r = 0.5*r(-1) + phi*x + 0.7*e_r + 0.1*u(-1)",
}


def dyn(F, L, M, N, con, lead_r, only_lag=0):
    s = ["0.4*" + term("x", F)] * (F > 0) + ["0.3*" + term("x", -L)] * (L > 0) + ["u"]
    eqs = ["x = " + " + ".join(s) + " - sig*r" + (" + 0.2*r(+1)" if lead_r else "")]
    sh = ["e_u"] if not only_lag else []
    if N:
        sh.append("0.5*" + term("e_u", -N))
    eqs.append("u = rho*%s + %s" % (term("u", -M), " + ".join(sh)))
    variables, shocks = ["x", "r", "u"], ["e_u"]
    if "e_r" in CON[con]:
        variables.append("w")
        shocks.append("e_r")
        eqs.append("w = e_r")
    return build(variables, eqs, CON[con], shocks, PARS, OBS)


# the model whose declarations are permuted
B_VARS = ["y", "r", "p", "u"]
B_EQS = ["y = y(+1) - sig*(r - p(+1)) + 0.2*y(-1) - 0.2*y + u", "p = 0.9*p(+1) + kap*y + 0.5*e_p", "u = rho*u(-1) + e_u + 0.3*e_p(-1)"]
B_CON = "r = phi*p + 0.3*y + 0.4*r(-1)"
B_SHOCKS = ["e_u", "e_p"]
B_PARS = [("rho", ".7"), ("sig", ".8"), ("kap", ".1"), ("phi", "1.3"), ("s1", ".4"), ("s2", ".25"), ("x_bar", "-1.5")]
B_OBS = [("oy", "y + 0.1"), ("orr", "4*r"), ("op", "p - kap")]
B_COV = {"e_u": "s1", "e_p": "2*s2"}


def base(variables=B_VARS, eqs=B_EQS, con=B_CON, shocks=B_SHOCKS, pars=B_PARS, obs=B_OBS, cov=B_COV, **k):
    return build(variables, eqs, con, shocks, pars, obs, cov, **k)


def cases(tier):
    out = []

    def add(kind, text, expect="any", **k):
        out.append(dict(kind=kind, text=text, expect=expect, **k))

    # plain
    add("base", base())
    # 1. dynamics
    big = tier == "thorough"
    rng = range(5) if big else range(6)
    for F, L, M, N, con, lr in itertools.product(rng, rng, (1, 2, 3) if big else (1, 2, 3, 4, 5), (0, 1, 2) if big else (0, 1, 2, 3, 4), CON, (0, 1)):
        if not big:
            # deviations from the simplest model: at most two of the five dimensions are beyond one
            dev = (F > 1) + (L > 1) + (M > 1) + (N > 0) + (con != "0") + lr
            if dev > (2 if max(F, L, M, N + 1) < 4 else 1):
                continue
        add("dyn", dyn(F, L, M, N, con, lr), par=[F, L, M, N, con, lr])
    for N, con in itertools.product((1, 2, 3), CON):
        add("lagshock", dyn(1, 1, 1, N, con, 0, only_lag=1), par=[N, con])
    # several lags and leads of several variables at once
    for a, b, c, d in itertools.product((0, 1, 2, 3) if big else (0, 2, 3), repeat=4):
        eqs = [
            "x = 0.3*%s + 0.2*%s - sig*r + u" % (term("x", a) if a else "0", term("x", -b) if b else "0"),
            "u = 0.2*%s + 0.3*u(-1) + 0.1*%s + e_u" % (term("u", c) if c else "0", term("u", -d) if d else "0"),
        ]
        add("multi", build(["x", "r", "u"], eqs, "r = phi*x", ["e_u"], PARS, OBS), par=[a, b, c, d])
    # distributed lags and leads: all sets of lags up to five, and of leads up to three
    for n, var in itertools.product(range(1, 32), ("x", "u")):
        lags = [i + 1 for i in range(5) if n >> i & 1]
        s = " + ".join("%s*%s" % (round(0.1 + 0.03 * i, 2), term(var, -i)) for i in lags)
        eqs = ["x = 0.4*x(+1) - sig*r + u" + (" + " + s if var == "x" else ""), "u = e_u + " + (s if var == "u" else "rho*u(-1)")]
        add("dlag", build(["x", "r", "u"], eqs, "r = phi*x", ["e_u"], PARS, OBS), par=[n, var])
    for n, m in itertools.product(range(1, 8), (0, 1, 6)):
        s = " + ".join("%s*%s" % (round(0.1 + 0.05 * i, 2), term("x", i)) for i in (1, 2, 3) if n >> (i - 1) & 1)
        s += "".join(" - 0.15*%s" % term("r", i) for i in (1, 2, 3) if m >> (i - 1) & 1)
        add("dlead", build(["x", "r", "u"], ["x = u - sig*r + " + s, "u = rho*u(-1) + e_u"], "r = phi*x", ["e_u"], PARS, OBS), par=[n, m])
    # distributed lags of a shock
    for n in range(1, 16):
        s = " + ".join("%s*%s" % (round(0.2 + 0.1 * i, 2), term("e_u", -i)) for i in range(4) if n >> i & 1)
        add("dshock", build(["x", "r", "u"], ["x = 0.4*x(+1) - sig*r + u", "u = rho*u(-1) + " + s], "r = phi*x", ["e_u"], PARS, OBS), par=n)
    # number of variables
    for n in range(1, 12):
        vs = ["x", "r"] + ["v%d" % i for i in range(n)]
        eqs = ["x = 0.4*x(+1) - sig*r + " + " + ".join("%s*v%d" % (round(0.5 + 0.1 * i, 1), i) for i in range(n))]
        eqs += ["v0 = rho*v0(-1) + e_u"] + ["v%d = 0.3*v%d(-1) + 0.2*v%d(-2) + %s" % (i, i - 1, i, "e_u" if i % 3 == 0 else "0.1*x(-1)") for i in range(1, n)]
        add("many", build(vs, eqs, "r = phi*x", ["e_u"], PARS, [("o1", "x"), ("o2", "v%d + r" % (n - 1))]), par=n)
    # number of shocks
    for n in range(1, 7):
        sh = ["e_%d" % i for i in range(n)]
        eqs = ["x = 0.4*x(+1) - sig*r + u" + "".join(" + %s*%s" % (round(0.1 * (i + 1), 1), s) for i, s in enumerate(sh) if i % 2), "u = rho*u(-1)" + "".join(" + %s*%s" % (round(1 - 0.1 * i, 1), s) for i, s in enumerate(sh))]
        add("nshocks", build(["x", "r", "u"], eqs, "r = phi*x", sh, PARS, OBS, cov={s: "s1*%d" % (i + 1) for i, s in enumerate(sh)}), par=n)
    # lags of two shocks in two equations
    for a, b, c, d in itertools.product((0, 1, 2), repeat=4):
        eqs = [
            "x = 0.4*x(+1) - sig*r + u + %s" % " + ".join(["0.3*" + term("e_a", -a), "0.2*" + term("e_b", -b)]),
            "u = rho*u(-1) + %s" % " - ".join(["0.6*" + term("e_a", -c), "0.7*" + term("e_b", -d)]),
        ]
        add("shocks2", build(["x", "r", "u"], eqs, "r = phi*x", ["e_a", "e_b"], PARS, OBS), par=[a, b, c, d])
    # 2. orderings
    for vs in itertools.permutations(B_VARS):
        for es in itertools.permutations(B_EQS):
            add("order", base(variables=vs, eqs=es))
    for sh in itertools.permutations(B_SHOCKS):
        for ob in itertools.permutations(B_OBS):
            for i in range(len(B_PARS)):
                add("order2", base(shocks=sh, obs=ob, pars=B_PARS[i:] + B_PARS[:i]))
    # 3. syntax
    forms = {
        "std": lambda l, r: "%s = %s" % (l, r),
        "swap": lambda l, r: "%s = %s" % (r, l),
        "noeq": lambda l, r: "%s - (%s)" % (l, r),
        "zero": lambda l, r: "0 = %s - (%s)" % (l, r),
        "zero2": lambda l, r: "%s - (%s) = 0" % (l, r),
        "scale": lambda l, r: "2*%s = 2*(%s)" % (l, r),
        "par": lambda l, r: "phi^2*(%s) = (phi**2)*(%s)" % (l, r),
        "div": lambda l, r: "%s/phi = (%s)/phi" % (l, r),
    }
    for f in forms:
        for mark in "-~":
            for end in ("", ";"):
                eqs = [forms[f](*[z.strip() for z in e.split("=")]) + end for e in B_EQS]
                add("syntax", base(eqs=eqs, mark=mark, con=B_CON + end), par=[f, mark, end])
    for br in ("@\n      ", "@ \n      "):
        eqs = [e.replace(" + ", " %s+ " % br) for e in B_EQS]
        add("linebreak", base(eqs=eqs))
    for a, b in (("y(+1)", "y(1)"), ("p(+1)", "p(1)"), ("u(-1)", "u(- 1)"), ("0.5*e_p", "e_p/2"), ("0.2*y(-1)", "(1/5)*y(-1)")):
        add("syntax2", base(eqs=[e.replace(a, b) for e in B_EQS]))
    # indentation of lists
    for ind in (2, 3, 4, 6, 8):
        for mark in "-~":
            t = base(mark=mark).replace("\n    %s " % mark, "\n%s%s " % (" " * ind, mark))
            add("indent", t, par=[ind, mark])
    # terms of second order do not matter
    for extra in ("+ 0.3*y(-1)*u", "+ 0.5*u**2", "+ 0.5*u^2", "+ r*p(+1)", "+ (1 + u)*(1 + p) - 1 - u - p"):
        add("second", base(eqs=[B_EQS[0] + " " + extra] + B_EQS[1:]))
    # 4. identifiers
    names = ["pi", "S", "N", "E", "Q", "O", "beta", "gamma", "zeta", "y1", "yy", "y_1", "y_", "Y", "rr", "alpha_2", "I", "Si", "ff", "x", "l", "h"]
    import re

    for nm in names:
        sub = lambda old: re.sub(r"\b%s\b" % old, nm, base())
        add("ident", sub("y"), par=["y", nm])
        add("ident", sub("p"), par=["p", nm])
        add("ident", sub("kap"), par=["kap", nm])
        add("ident", sub("e_p"), par=["e_p", nm])
        add("ident", sub("r"), par=["r", nm])
    # 5. parameters, functions of parameters, bound
    for xb in ("par", "func", "none"):
        pars = [p for p in B_PARS if p[0] != "x_bar"] + ([("x_bar", "-1.5")] if xb == "par" else [])
        pf = [("x_bar", "-rho - s1")] if xb == "func" else []
        for kf in ("kap: .1", "f1", "f2", "f3", "f4"):
            pp, q = list(pars), list(pf)
            if kf != "kap: .1":
                pp = [p for p in pp if p[0] != "kap"]
                q += {
                    "f1": [("kap", "rho/7")],
                    "f2": [("kap", "k0*2"), ("k0", "0.05")],
                    "f3": [("kap", "sqrt(rho)*0.1")],
                    "f4": [("kap", "exp(-phi)*k1"), ("k1", "normcdf(0)*normpdf(0.1) + log(2)^2")],
                }[kf]
            add("params", base(pars=pp, parafunc=q), par=[xb, kf])
    for a in ("0", "1", "0.0", "1.0e-1", "-0.3", "2"):
        add("parval", base(pars=[(k, a if k == "kap" else v) for k, v in B_PARS]), par=a)
    # 6. observables and covariances
    for ob in ("y", "-y", "y + p", "400*(y - 0.5*p) + 100*kap", "kap*y - phi", "(y + 1)*(1 + p)", "r/4", "y - y", "rho**2 + r", "sum([y, p, r])", "sum(i*y for i in range(4))"):
        add("obs", base(obs=[("o1", ob), ("o2", "r"), ("o3", "u + y")]), par=ob)
    for n, c, k in itertools.product(range(1, 16), ("", " + 0.7", " - kap*10", " + 1 - rho"), (0, 1)):
        s = " + ".join(("%d*%s" % (j + 1, v) if k else "rho*%s" % v if j % 2 else v) for j, v in enumerate(B_VARS) if n >> j & 1)
        add("obs2", base(obs=[("o0", "p"), ("o1", s + c), ("o2", "r")]), par=[n, c, k])
    for n in range(1, 7):
        add("nobs", base(obs=[("o%d" % i, "%d*%s + %d" % (i + 1, B_VARS[i % 4], i)) for i in range(n)]), par=n)
    add("noobs", base(obs=[]))
    for cv in ("s1", "2*s1", "0.3", "s1*s2", "s1**2", "1", "s1^2", "rho/3"):
        for s in B_SHOCKS:
            c = dict(B_COV)
            c[s] = cv
            add("cov", base(cov=c), par=[s, cv])
    # 7. must be rejected, or do what is written
    for e in ("u(+1)", "y(+1)"):
        add("confwd", base(con=B_CON + " + 0.1*" + e))
    for e in ("y(-2)", "u(-2)", "r(-2)", "e_p(-1)", "e_u(-1)", "e_u", "p(-1)", "u(-1)"):
        add("conlag", base(con=B_CON + " + 0.1*" + e), par=e)
    for e in ("y(-1)", "y(-2)", "y(+1)", "e_u", "e_p(-1)"):
        add("obslag", base(obs=[("o1", "y + 0.1*" + e), ("o2", "r")]), par=e)
    # 8. malformed: must be rejected
    bad = {
        "undeclared variable": base(eqs=B_EQS[:2] + ["u = rho*z(-1) + e_u"]),
        "undefined parameter": base(eqs=B_EQS[:2] + ["u = rhoo*u(-1) + e_u"]),
        "undeclared in constraint": base(con="r = phi*z"),
        "undeclared in observable": base(obs=[("o1", "z")]),
        "missing equation": base(eqs=B_EQS[:2]),
        "too many equations": base(eqs=B_EQS + ["y = p"]),
        "two constraints": base(con=[B_CON, "y = p"]),
        "no equality in constraint": base(con="r"),
        "expression on the lhs of the constraint": base(con="r + y = p"),
        "unused shock": base(shocks=B_SHOCKS + ["e_z"]),
        "unused variable": base(variables=B_VARS + ["z"]),
        "variable twice": base(variables=["y", "r", "p", "u", "u"]),
        "space in name": base().replace("[y, r, p, u]", "[y r, p, u, z]"),
        "lead of shock": base(eqs=B_EQS[:2] + ["u = rho*u(-1) + e_u(+1)"]),
        "duplicate equation": base(eqs=[B_EQS[0] + " + e_u", B_EQS[1], B_EQS[1].replace(" = ", "/2 = 0.5*(") + ")"]),
        "duplicate name": base(variables=["y", "r", "p", "u", "u"], eqs=B_EQS + ["y = p + 0*u"]),
        "syntax": base(eqs=B_EQS[:2] + ["u = rho*u(-1 + e_u"]),
        "two equal signs": base(eqs=B_EQS[:2] + ["u = rho*u(-1) = e_u"]),
        "circular": base(pars=[p for p in B_PARS if p[0] != "kap"], parafunc=[("kap", "k0*2"), ("k0", "kap/2")]),
        "undefined in parafunc": base(pars=[p for p in B_PARS if p[0] != "kap"], parafunc=[("kap", "k0*2")]),
        "undefined in covariances": base(cov={"e_u": "s9", "e_p": "s2"}),
        "positive bound": base(pars=[(k, "0.5" if k == "x_bar" else v) for k, v in B_PARS]),
    }
    for k, t in bad.items():
        add("bad", t, expect="reject", par=k)
    return out


def run(case, api):
    text = case["text"]
    api.states += 1
    try:
        m = read(api, text)
        quiet(m.set_par, None)
    except Exception as e:
        api.outcome("rejected", type(e).__name__)
        if case["expect"] == "reject":
            api.traces += 1
            return
        exc = e
        m = None
    if m is not None and case["expect"] == "reject":
        raise Fail("accepted", "malformed file (%s) was accepted" % case["par"])
    try:
        ref = RefModel(text)
        det = ref.determinacy()
    except Exception as e:
        # the interpreter supports at least as much as is documented
        det, ref = "unsupported", None
        if m is not None:
            raise
    if m is None:
        unsupported = case["kind"] in ("confwd", "obslag") or case["kind"] == "conlag" and case["par"] not in ("e_u", "p(-1)", "u(-1)")
        if det == "unique" and not unsupported:
            raise Fail("rejected", "valid file was rejected: %r" % exc, text)
        api.traces += 1
        return
    if det == "borderline":
        api.skipped += 1
        return
    if det != "unique":
        raise Fail("accepted", "a model without unique stable solution (%s) was compiled" % det, text)

    if [str(s) for s in m.shocks] != ref.shocks:
        raise Fail("shocks", "shocks are %s instead of %s" % (m.shocks, ref.shocks))
    if list(m.observables) != ref.observables:
        raise Fail("observables", "observables are %s instead of %s" % (m.observables, ref.observables))
    if list(m.par_names) != ref.par_names:
        raise Fail("parameters", "parameters are %s instead of %s" % (m.par_names, ref.par_names))
    if not fclose(m.get_par(), [ref.calib[p] for p in ref.par_names]):
        raise Fail("calibration", "calibration is %s" % m.get_par())
    missing = set(ref.vars) - {str(v) for v in m.vv}
    if missing:
        raise Fail("variables", "variables %s are not part of the solution" % missing)
    if not fclose(quiet(m.get_cov), ref.qq()):
        raise Fail("covariance", "shock matrix is %s instead of %s" % (m.get_cov(), ref.qq()))

    sol = ref.solve()
    H = 14
    obs_lin = ref.linear()[3]
    lks = m.lks
    for i, s in enumerate(ref.shocks):
        e = np.zeros(len(ref.shocks))
        e[i] = 1.0
        for lk in (None, (0, 2), (1, 1), (2, 3)):
            if lk is None:
                X, LK, flag = quiet(m.irfs, (s, 1.0, 0), T=H, linear=True, verbose=False)
                R = sol.path(np.zeros(sol.n), e, 0, 0, H)
                bind = None
            else:
                X, LK, flag = quiet(m.irfs, (s, 1.0, 0), T=H, set_k=lk, verbose=False)
                R = sol.path(np.zeros(sol.n), e, lk[0], lk[1], H)
                bind = set(range(lk[0], lk[0] + lk[1]))
            P = cols(m, X.values, ref.vars)
            api.transitions += H
            res, at = ref.residuals(P, {s: np.array([1.0])}, binding=bind)
            scale = max(1.0, max(np.max(np.abs(v)) for v in P.values()))
            if not res <= 1e-7 * scale:
                raise Fail("residual", "equation %d is violated by %.3g in period %d of the response to %s (durations %s)" % (at[1] + 1, res, at[0], s, lk), text)
            for v in ref.vars:
                if not fclose(P[v], R[:, sol.names.index(v)], 1e-6, 1e-6):
                    raise Fail("path", "response of %s to %s (durations %s) is %s, expected %s" % (v, s, lk, P[v][:4], R[:4, sol.names.index(v)]), text)
            if ref.observables:
                O = np.asarray(quiet(m.obs, X.values), float)
                E = np.array([[sum(c * P[n][t] for (k, n, d), c in obs_lin[o].d.items()) + obs_lin[o].c for o in ref.observables] for t in range(H)])
                if not fclose(O, E):
                    raise Fail("measurement", "observables %s, expected %s" % (O[0], E[0]), text)
    api.traces += 1
    api.outcome(case["kind"], np.round(R[0], 8).tolist())
