"""Reference filters on the reference solution of a model file.

Linear: no recursion at all - states and observations of all periods are jointly
Gaussian with known (stationary) covariances, so the likelihood and filtered and
smoothed moments are plain conditional moments.
Nonlinear: the ensemble filter of econsieve, fed with the reference transition.
"""
import numpy as np
import scipy.linalg as sl


class RefFilter:
    def __init__(self, ref, sol, par):
        self.ref, self.sol = ref, sol
        lin = ref.linear(par)[3]
        self.Z = np.zeros((len(ref.observables), sol.n))
        self.c = np.zeros(len(ref.observables))
        for i, o in enumerate(ref.observables):
            self.c[i] = lin[o].c
            for (q, v, d), a in lin[o].d.items():
                assert q == "v" and d == 0
                self.Z[i, sol.names.index(v)] += a
        qq = ref.qq(par)
        self.Q = qq @ qq
        self.RQR = sol.R @ self.Q @ sol.R.T
        self.P = stationary(sol.T, self.RQR)

    def joint(self, nT, R):
        """covariances of stacked states, of states with observations, of observations"""
        n = self.sol.n
        Cx = np.zeros((nT * n, nT * n))
        for t in range(nT):
            V = self.P
            for s in range(t, nT):
                # Cov(x_s, x_t) = T^(s-t) P
                Cx[s * n:(s + 1) * n, t * n:(t + 1) * n] = V
                Cx[t * n:(t + 1) * n, s * n:(s + 1) * n] = V.T
                V = self.sol.T @ V
        H = np.kron(np.eye(nT), self.Z)
        return Cx, Cx @ H.T, H @ Cx @ H.T + np.kron(np.eye(nT), R)

    def loglik(self, Y, R):
        nT = len(Y)
        S = self.joint(nT, R)[2]
        v = (np.asarray(Y) - self.c).ravel()
        sgn, ld = np.linalg.slogdet(S)
        return -0.5 * (len(v) * np.log(2 * np.pi) + ld + v @ np.linalg.solve(S, v))

    def moments(self, Y, R, smooth):
        """means [T, n] and covariances [T, n, n] given all (or all past and current) data"""
        nT, n, ny = len(Y), self.sol.n, len(self.c)
        Cx, Cxy, S = self.joint(nT, R)
        v = (np.asarray(Y) - self.c).ravel()
        M, C = np.empty((nT, n)), np.empty((nT, n, n))
        for t in range(nT):
            h = nT * ny if smooth else (t + 1) * ny
            G = np.linalg.solve(S[:h, :h], Cxy[t * n:(t + 1) * n, :h].T).T
            M[t] = G @ v[:h]
            C[t] = self.P - G @ Cxy[t * n:(t + 1) * n, :h].T
        return M, C


def stationary(T, Q):
    """solves P = T P T' + Q by doubling"""
    P, A = Q.copy(), T.copy()
    for _ in range(60):
        Pn = P + A @ P @ A.T
        A = A @ A
        if np.max(np.abs(Pn - P)) < 1e-15 * max(1, np.max(np.abs(Pn))):
            return Pn
        P = Pn
    return P


class Tie(Exception):
    pass


def ensemble(rf, vv, dimp, Y, R, N, L, K, reduced, seed=None, run_seed=None, smooth=False):
    """likelihood (or smoothed ensemble) of the ensemble filter with the reference
    transition, with states ordered as in vv (reduced: without the first dimp)"""
    from econsieve import TEnKF

    sol = rf.sol
    names = [str(v) for v in vv]
    ix = np.array([sol.names.index(v) for v in names])
    sx = ix[dimp:] if reduced else ix
    stat = {"k": 0, "flag": 0}

    def step(s, e):
        x = np.zeros(sol.n)
        x[sx] = s
        l, k, flag, marg = sol.select(x, e, L, K)
        if marg < 1e-6:
            raise Tie
        stat["k"] += k > 0
        stat["flag"] += flag > 0
        return sol.step(x, e, l, k)

    f = TEnKF(N=N, dim_x=len(sx), dim_z=len(rf.c), seed=seed)
    f.R, f.Q = R, rf.Q
    if reduced:
        def t_func(s, e):
            x = step(s, e)
            return (x[sx], rf.Z @ x + rf.c), 0

        f.t_func, f.o_func = t_func, None
    else:
        f.t_func = lambda s, e: (step(s, e)[sx], 0)
        f.o_func = lambda X: X @ rf.Z[:, sx].T + rf.c
    f.P = rf.P[np.ix_(sx, sx)]
    res = f.batch_filter(np.asarray(Y), calc_ll=not smooth, store=smooth, seed=run_seed)
    if smooth:
        res = f.rts_smoother(res)
    return res, stat
