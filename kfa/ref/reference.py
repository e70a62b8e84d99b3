"""Reference semantics, in mathematical form.

This file is never imported or run: the value-graph analysis parses it and uses the normal
forms it denotes as the oracle for the filters.
"""
import numpy as np


def given(u):
    """A control counts as given unless it is None or entirely NaN."""
    return u is not None and not np.isnan(u).all()


class RefKF:
    def __init__(self, A, xk, B, Pk, H, Q, R):
        self.A, self.B, self.H, self.Q, self.R = A, B, H, Q, R
        self.x0, self.P0 = xk, Pk
        self.kalman_gains = []

    def predict(self, Ak, xk, Bk, uk, Pk, Qk):
        if given(Bk) and given(uk):
            x = Ak @ xk + Bk @ uk
        else:
            x = Ak @ xk
        return x, Ak @ Pk @ Ak.T + Qk

    def update(self, Hk, xk, Pk, zk, Rk):
        K = Pk @ Hk.T @ np.linalg.inv(Hk @ Pk @ Hk.T + Rk)
        self.kalman_gains.append(K)
        return xk + K @ np.atleast_1d(zk - Hk @ xk), Pk - K @ Hk @ Pk

    def step(self, k, x, P, Z, U):
        Bk = None if self.B is None else self.B[k]
        uk = None if U is None else U[k]
        xp, Pp = self.predict(self.A[k], x, Bk, uk, P, self.Q[k])
        return self.update(self.H[k], xp, Pp, Z[k], self.R[k])

    def filter(self, Z, U=None):
        x, P = self.x0, self.P0
        xs, Ps = [], []
        for k in range(len(Z)):
            x, P = self.step(k, x, P, Z, U)
            xs.append(x)
            Ps.append(P)
        return np.array(xs), np.array(Ps)

    def smooth(self, Z, U=None):
        x, P = self.filter(Z, U)
        N = len(Z)
        xs = np.zeros((N, len(self.x0)))
        Ps = np.zeros((N, len(self.x0), len(self.x0)))
        xs[N - 1] = x[N - 1]
        Ps[N - 1] = P[N - 1]
        for j in range(N - 1):
            k = N - 2 - j
            Bk = None if self.B is None else self.B[k + 1]
            uk = None if U is None else U[k + 1]
            xp, Pp = self.predict(self.A[k + 1], x[k], Bk, uk, P[k], self.Q[k + 1])
            G = P[k] @ self.A[k + 1].T @ np.linalg.inv(Pp)
            xs[k] = x[k] + G @ (xs[k + 1] - xp)
            Ps[k] = P[k] + G @ (Ps[k + 1] - Pp) @ G.T
        return xs, Ps


class RefEKF:
    def __init__(self, xk, Pk, Q, R, f, h, jacobian_A, jacobian_H):
        self.f, self.h, self.FA, self.FH = f, h, jacobian_A, jacobian_H
        self.Q, self.R = Q, R
        self.x0, self.P0 = xk, Pk
        self.kalman_gains = []

    def predict(self, xk, uk, Pk, Qk):
        F = self.FA(xk, uk)
        return self.f(xk, uk), F @ Pk @ F.T + Qk

    def update(self, xk, Pk, zk, Rk):
        H = self.FH(xk)
        K = Pk @ H.T @ np.linalg.inv(H @ Pk @ H.T + Rk)
        self.kalman_gains.append(K)
        return xk + K @ np.atleast_1d(zk - self.h(xk)), Pk - K @ H @ Pk

    def control(self, U, k):
        """An omitted control reaches the user's model as an all-NaN control."""
        return np.nan if U is None else U[k]

    def filter(self, Z, U=None):
        x, P = self.x0, self.P0
        xs, Ps = [], []
        for k in range(len(Z)):
            xp, Pp = self.predict(x, self.control(U, k), P, self.Q[k])
            x, P = self.update(xp, Pp, Z[k], self.R[k])
            xs.append(x)
            Ps.append(P)
        return np.array(xs), np.array(Ps)

    def smooth(self, Z, U=None):
        x, P = self.filter(Z, U)
        N = len(Z)
        xs = np.zeros((N, len(self.x0)))
        Ps = np.zeros((N, len(self.x0), len(self.x0)))
        xs[N - 1] = x[N - 1]
        Ps[N - 1] = P[N - 1]
        for j in range(N - 1):
            k = N - 2 - j
            u = self.control(U, k + 1)
            F = self.FA(x[k], u)
            xp, Pp = self.predict(x[k], u, P[k], self.Q[k + 1])
            G = P[k] @ F.T @ np.linalg.inv(Pp)
            xs[k] = x[k] + G @ (xs[k + 1] - xp)
            Ps[k] = P[k] + G @ (Ps[k + 1] - Pp) @ G.T
        return xs, Ps


def all_nan(x):
    return np.isnan(x).all()


def drive_kf_filter(kf, A, B, H, Q, R, x, P, Z, U):
    """The standard filter driven by hand, one predict and one update per observation."""
    xs, Ps = [], []
    for k in range(len(Z)):
        Bk = None if B is None else B[k]
        uk = None if U is None else U[k]
        xp, Pp = kf.predict(Ak=A[k], xk=x, Bk=Bk, uk=uk, Pk=P, Qk=Q[k])
        x, P = kf.update(Hk=H[k], xk=xp, Pk=Pp, zk=Z[k], Rk=R[k])
        xs.append(x)
        Ps.append(P)
    return np.array(xs), np.array(Ps)


def drive_ekf_filter(kf, Q, R, x, P, Z, U):
    """The extended filter driven by hand."""
    xs, Ps = [], []
    for k in range(len(Z)):
        uk = np.nan if U is None else U[k]
        xp, Pp = kf.predict(xk=x, uk=uk, Pk=P, Qk=Q[k])
        x, P = kf.update(xk=xp, Pk=Pp, zk=Z[k], Rk=R[k])
        xs.append(x)
        Ps.append(P)
    return np.array(xs), np.array(Ps)
