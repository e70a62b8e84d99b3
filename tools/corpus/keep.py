S, X, U, INIT = "src/kalmankit/standard.py", "src/kalmankit/extended.py", "src/kalmankit/utils.py", "src/kalmankit/__init__.py"
GAIN = """        Kk = np.linalg.solve(Sk.T, Hk @ Pk.T).T
        self.kalman_gains.append(Kk)
"""
KFLOOP_HEAD = """        _iterable = zip(self.A, self.H, self.B, U, Z, self.Q, self.R)
        for k, (Ak, Hk, Bk, uk, zk, Qk, Rk) in enumerate(_iterable):
"""
KFLOOP = KFLOOP_HEAD + """            # predict step, get prior estimates
            xk_prior, Pk_prior = predict_func(
                Ak=Ak, xk=xk, Bk=Bk, uk=uk, Pk=Pk, Qk=Qk
            )

            # update step, correct prior estimates
            xk_posterior, Pk_posterior = update_func(
                Hk=Hk, xk=xk_prior, Pk=Pk_prior, zk=zk, Rk=Rk
            )

            states[k] = xk_posterior
            errors[k] = Pk_posterior

            # update estimates for the next iteration
            xk = xk_posterior
            Pk = Pk_posterior

        return states, errors
"""
EKFLOOP_HEAD = """        _iterable = zip(U, Z, self.Q, self.R)
        for k, (uk, zk, Qk, Rk) in enumerate(_iterable):
"""
ALLOC = """        # mean and covariance array allocation
        states = np.zeros((len(Z), self.state_size))
        errors = np.zeros((len(Z), self.state_size, self.state_size))
"""
SALLOC = """        # mean and covariance array allocation
        xk_smooth = np.zeros((len(Z), self.state_size))
        Pk_smooth = np.zeros((len(Z), self.state_size, self.state_size))

        # smooth initialization
        xk_smooth[-1] = x_est[-1]
        Pk_smooth[-1] = P_est[-1]
"""
SLOOP = """        n_obs = len(Z)
        for k in range(n_obs - 2, -1, -1):
"""
KSTEP = """            # smooth (like butter) process
            Kk = np.linalg.solve(Pk_ahead.T, (Pk @ Ak.T).T).T
            xk_smooth[k] = x_est[k] + Kk @ (xk_smooth[k + 1] - xk_ahead)
            Pk_smooth[k] = P_est[k] + Kk @ (
                (Pk_smooth[k + 1] - Pk_ahead) @ Kk.T
            )
"""
XSTEP = """            # smooth process
            Kk = np.linalg.solve(Pk_ahead.T, (Pk @ Ak.T).T).T
            xk_smooth[k] = x_est[k] + Kk @ (xk_smooth[k + 1] - xk_ahead)
            Pk_smooth[k] = P_est[k] + Kk @ ((Pk_smooth[k + 1] - Pk_ahead) @ Kk.T)
"""
PRED = """        if Bk is None or uk is None or is_nan_all(Bk) or is_nan_all(uk):
            xk_prior = Ak @ xk
        else:
            xk_prior = Ak @ xk + Bk @ uk
"""
POST = """        xk_posterior = xk + Kk @ np.atleast_1d((zk - Hk @ xk))

        # update error covariance
        Pk_posterior = (self.__I - Kk @ Hk) @ Pk
"""
XPOST = """        xk_posterior = xk + Kk @ np.atleast_1d((zk - self.h(xk)))

        # update error covariance
        Pk_posterior = (self.__I - Kk @ Hk) @ Pk
"""
FULL = """    if arr is None:
        arr = np.full_like(broad_to, np.nan, dtype=float)

    return arr
"""
CORPUS = {
    "noop-pass": [(S, "        # innovation (pre-fit", "        _unused = 0\n        # innovation (pre-fit"), (X, "        # jacobian of h", "        _ = None\n        # jacobian of h"), (S, "        # filtering process to get", "        pass\n        # filtering process to get"), (U, "    if arr is None", "    _unused = 0\n    if arr is None"), (U, "    return np.isnan", "    pass\n    return np.isnan")],
    "comment-end": [(S, "        return xk_smooth, Pk_smooth\n", "        return xk_smooth, Pk_smooth\n# end\n")],
    "inv": [(S, "np.linalg.solve(Sk.T, Hk @ Pk.T).T", "Pk @ Hk.T @ np.linalg.inv(Sk)"), (X, "np.linalg.solve(Sk.T, Hk @ Pk.T).T", "Pk @ Hk.T @ np.linalg.inv(Sk)")],
    "solve-notrans": [(S, "np.linalg.solve(Sk.T, Hk @ Pk.T).T", "np.linalg.solve(Sk, Hk @ Pk).T"), (X, "np.linalg.solve(Sk.T, Hk @ Pk.T).T", "np.transpose(np.linalg.solve(Sk, Hk @ Pk))")],
    "dot": [(S, "Sk = Hk @ (Pk @ Hk.T) + Rk", "Sk = np.dot(np.dot(Hk, Pk), Hk.T) + Rk"), (S, "Pk_prior = Ak @ (Pk @ Ak.T) + Qk", "Pk_prior = Ak.dot(Pk).dot(Ak.T) + Qk"), (X, "Sk = Hk @ (Pk @ Hk.T) + Rk", "Sk = np.matmul(np.matmul(Hk, Pk), Hk.T) + Rk")],
    "multi-dot": [(S, "Sk = Hk @ (Pk @ Hk.T) + Rk", "Sk = np.linalg.multi_dot([Hk, Pk, Hk.T]) + Rk")],
    "joseph": [(S, "Pk_posterior = (self.__I - Kk @ Hk) @ Pk", "IKH = self.__I - Kk @ Hk\n        Pk_posterior = IKH @ Pk @ IKH.T + Kk @ (Sk - Hk @ Pk @ Hk.T) @ Kk.T")],
    "cov-expanded": [(S, "(self.__I - Kk @ Hk) @ Pk", "Pk - Kk @ Hk @ Pk"), (X, "(self.__I - Kk @ Hk) @ Pk", "Pk - Kk @ Sk @ Kk.T")],
    "eye-local": [(S, "(self.__I - Kk @ Hk) @ Pk", "(np.eye(len(xk)) - Kk @ Hk) @ Pk"), (X, "(self.__I - Kk @ Hk) @ Pk", "(np.eye(Pk.shape[0]) - Kk @ Hk) @ Pk")],
    "helper-gain": [(S, GAIN, "        Kk = self._gain(Hk, Pk, Sk)\n        self.kalman_gains.append(Kk)\n"), (S, "    def filter(", "    @staticmethod\n    def _gain(Hk, Pk, Sk):\n        return np.linalg.solve(Sk.T, Hk @ Pk.T).T\n\n    def filter(")],
    "helper-innov": [(S, "Kk @ np.atleast_1d((zk - Hk @ xk))", "Kk @ self._innovation(Hk, xk, zk)"), (S, "    def filter(", "    def _innovation(self, Hk, xk, zk):\n        return np.atleast_1d(zk - Hk @ xk)\n\n    def filter(")],
    "helper-utils": [(U, "def is_nan_all", "def symmetric_product(M, P):\n    return M @ P @ M.T\n\n\ndef is_nan_all"), (S, "Sk = Hk @ (Pk @ Hk.T) + Rk", "Sk = symmetric_product(Hk, Pk) + Rk"), (S, "from kalmankit.utils import check_none_and_broadcast, is_nan_all", "from kalmankit.utils import check_none_and_broadcast, is_nan_all, symmetric_product")],
    "helper-nested": [(S, "        # innovation (pre-fit residual) covariance\n", "        def project(M):\n            return M @ Pk @ M.T\n\n        # innovation (pre-fit residual) covariance\n"), (S, "Sk = Hk @ (Pk @ Hk.T) + Rk", "Sk = project(Hk) + Rk")],
    "helper-lambda": [(S, "        # innovation (pre-fit residual) covariance\n", "        quad = lambda M: M @ Pk @ M.T\n"), (S, "Sk = Hk @ (Pk @ Hk.T) + Rk", "Sk = quad(Hk) + Rk")],
    "positional-calls": [(S, "predict_func(\n                Ak=Ak, xk=xk, Bk=Bk, uk=uk, Pk=Pk, Qk=Qk\n            )\n\n            # update", "predict_func(\n                Ak, xk, Bk, uk, Pk, Qk\n            )\n\n            # update"), (S, "Hk=Hk, xk=xk_prior, Pk=Pk_prior, zk=zk, Rk=Rk", "Hk, xk_prior, Pk_prior, zk, Rk")],
    "loop-index": [(S, KFLOOP_HEAD, "        for k in range(len(Z)):\n            Ak, Hk, Bk, uk = self.A[k], self.H[k], self.B[k], U[k]\n            zk, Qk, Rk = Z[k], self.Q[k], self.R[k]\n"), (X, EKFLOOP_HEAD, "        for k in range(Z.shape[0]):\n            uk, zk, Qk, Rk = U[k], Z[k], self.Q[k], self.R[k]\n")],
    "loop-while": [(S, KFLOOP_HEAD, "        k = -1\n        while k < len(Z) - 1:\n            k += 1\n            Ak, Hk, Bk, uk = self.A[k], self.H[k], self.B[k], U[k]\n            zk, Qk, Rk = Z[k], self.Q[k], self.R[k]\n"), (X, EKFLOOP_HEAD + "", "        for k, zk in enumerate(Z):\n            uk, Qk, Rk = U[k], self.Q[k], self.R[k]\n")],
    "loop-append": [(S, ALLOC, "        states, errors = [], []\n"), (S, "            states[k] = xk_posterior\n            errors[k] = Pk_posterior\n", "            states.append(xk_posterior)\n            errors.append(Pk_posterior)\n"), (S, "        return states, errors\n", "        return np.array(states, dtype=float), np.array(errors, dtype=float)\n")],
    "loop-stack": [(X, ALLOC, "        states, errors = [], []\n"), (X, "            states[k] = xk_posterior\n            errors[k] = Pk_posterior\n", "            states.append(xk_posterior)\n            errors.append(Pk_posterior)\n"), (X, "        return states, errors\n", "        return np.stack(states).astype(float), np.stack(errors).astype(float)\n")],
    "loop-direct": [(S, KFLOOP, KFLOOP_HEAD + "            xk, Pk = predict_func(Ak=Ak, xk=xk, Bk=Bk, uk=uk, Pk=Pk, Qk=Qk)\n            xk, Pk = update_func(Hk=Hk, xk=xk, Pk=Pk, zk=zk, Rk=Rk)\n            states[k], errors[k] = xk, Pk\n\n        return states, errors\n")],
    "loop-prev-row": [(S, KFLOOP, KFLOOP_HEAD + "            if k > 0:\n                xk, Pk = states[k - 1], errors[k - 1]\n            xk_prior, Pk_prior = predict_func(Ak=Ak, xk=xk, Bk=Bk, uk=uk, Pk=Pk, Qk=Qk)\n            states[k], errors[k] = update_func(Hk=Hk, xk=xk_prior, Pk=Pk_prior, zk=zk, Rk=Rk)\n\n        return states, errors\n")],
    "loop-inlined-predict": [(S, "            xk_prior, Pk_prior = predict_func(\n                Ak=Ak, xk=xk, Bk=Bk, uk=uk, Pk=Pk, Qk=Qk\n            )\n\n            # update", "            xk_prior = Ak @ xk\n            if not (Bk is None or is_nan_all(Bk) or is_nan_all(uk)):\n                xk_prior = xk_prior + Bk @ uk\n            Pk_prior = Ak @ Pk @ Ak.T + Qk\n\n            # update")],
    "empty-alloc": [(S, "np.zeros((len(Z), self.state_size))", "np.empty((len(Z), self.state_size))"), (X, "np.zeros((len(Z), self.state_size, self.state_size))", "np.empty((len(Z), self.state_size, self.state_size))")],
    "zeros-like": [(S, SALLOC, "        xk_smooth = np.zeros_like(x_est)\n        Pk_smooth = np.zeros_like(P_est)\n        xk_smooth[-1] = x_est[-1]\n        Pk_smooth[-1] = P_est[-1]\n"), (X, SALLOC, "        xk_smooth = np.empty_like(x_est)\n        Pk_smooth = np.empty_like(P_est)\n        xk_smooth[-1], Pk_smooth[-1] = x_est[-1], P_est[-1]\n")],
    "smooth-copy": [(S, SALLOC, "        xk_smooth = x_est.copy()\n        Pk_smooth = P_est.copy()\n"), (X, SALLOC, "        xk_smooth, Pk_smooth = np.copy(x_est), np.array(P_est)\n")],
    "smooth-reversed": [(S, SLOOP, "        n_obs = len(Z)\n        for k in reversed(range(n_obs - 1)):\n"), (X, SLOOP, "        for k in range(len(Z) - 1)[::-1]:\n")],
    "smooth-while": [(S, SLOOP, "        k = len(Z) - 1\n        while k > 0:\n            k -= 1\n")],
    "smooth-carry": [(S, KSTEP, "            Kk = np.linalg.solve(Pk_ahead.T, (Pk @ Ak.T).T).T\n            xs = x_est[k] + Kk @ (xs - xk_ahead)\n            Ps = P_est[k] + Kk @ (Ps - Pk_ahead) @ Kk.T\n            xk_smooth[k] = xs\n            Pk_smooth[k] = Ps\n"), (S, "        n_obs = len(Z)\n", "        n_obs = len(Z)\n        xs, Ps = x_est[-1], P_est[-1]\n")],
    "smooth-shift": [(S, "        for k in range(n_obs - 2, -1, -1):\n            # select appropiate parameters for each time step\n            Ak = A[k + 1]\n            Qk = Q[k + 1]\n            Bk = B[k + 1]\n            uk = U[k + 1]\n            Pk = P_est[k]\n            xk = x_est[k]\n", "        for t in range(n_obs - 1, 0, -1):\n            Ak, Qk, Bk, uk = A[t], Q[t], B[t], U[t]\n            k = t - 1\n            Pk = P_est[k]\n            xk = x_est[k]\n")],
    "smooth-gain-inv": [(S, "np.linalg.solve(Pk_ahead.T, (Pk @ Ak.T).T).T", "Pk @ Ak.T @ np.linalg.inv(Pk_ahead)"), (X, "np.linalg.solve(Pk_ahead.T, (Pk @ Ak.T).T).T", "np.linalg.solve(Pk_ahead, Ak @ Pk).T")],
    "smooth-residual": [(S, KSTEP, "            Kk = np.linalg.solve(Pk_ahead.T, (Pk @ Ak.T).T).T\n            dx = xk_smooth[k + 1] - xk_ahead\n            dP = Pk_smooth[k + 1] - Pk_ahead\n            xk_smooth[k] = xk + Kk @ dx\n            Pk_smooth[k] = Pk + Kk @ dP @ Kk.T\n")],
    "smooth-helper": [(S, KSTEP, "            xk_smooth[k], Pk_smooth[k] = self._rts(\n                xk, Pk, Ak, xk_ahead, Pk_ahead, xk_smooth[k + 1], Pk_smooth[k + 1]\n            )\n"), (S, "    def smooth(\n", "    def _rts(self, xk, Pk, Ak, xa, Pa, xs, Ps):\n        G = np.linalg.solve(Pa.T, (Pk @ Ak.T).T).T\n        return xk + G @ (xs - xa), Pk + G @ ((Ps - Pa) @ G.T)\n\n    def smooth(\n")],
    "smooth-jac-first": [(X, "            # predicted mean and covariance\n            xk_ahead, Pk_ahead = predict_func(xk=xk, uk=uk, Pk=Pk, Qk=Qk)\n\n            # jacobian of f with respect to x evaluated at xk\n            Ak = self.jacobian_A(xk, uk)\n", "            Ak = self.jacobian_A(xk, uk)\n            xk_ahead, Pk_ahead = predict_func(xk=xk, uk=uk, Pk=Pk, Qk=Qk)\n")],
    "predict-flip": [(S, PRED, "        given = Bk is not None and uk is not None\n        if given and not is_nan_all(Bk) and not is_nan_all(uk):\n            xk_prior = Ak @ xk + Bk @ uk\n        else:\n            xk_prior = Ak @ xk\n")],
    "predict-inc": [(S, PRED, "        xk_prior = Ak @ xk\n        no_control = Bk is None or uk is None or is_nan_all(Bk) or is_nan_all(uk)\n        if not no_control:\n            xk_prior = xk_prior + Bk @ uk\n")],
    "predict-iadd": [(S, PRED, "        xk_prior = Ak @ xk\n        no_control = Bk is None or uk is None or is_nan_all(Bk) or is_nan_all(uk)\n        if not no_control:\n            xk_prior += Bk @ uk\n")],
    "predict-ternary": [(S, PRED, "        off = Bk is None or uk is None or is_nan_all(Bk) or is_nan_all(uk)\n        xk_prior = Ak @ xk if off else Ak @ xk + Bk @ uk\n")],
    "predict-early-return": [(S, "        # project state ahead\n" + PRED, "        Pk_prior = Ak @ (Pk @ Ak.T) + Qk\n        if Bk is None or uk is None or is_nan_all(Bk) or is_nan_all(uk):\n            return Ak @ xk, Pk_prior\n        xk_prior = Ak @ xk + Bk @ uk\n")],
    "predict-helper": [(S, PRED, "        xk_prior = Ak @ xk + self._control(Bk, uk) if self._has_control(Bk, uk) else Ak @ xk\n"), (S, "    def update(", "    def _has_control(self, Bk, uk):\n        if Bk is None or uk is None:\n            return False\n        return not (is_nan_all(Bk) or is_nan_all(uk))\n\n    def _control(self, Bk, uk):\n        return Bk @ uk\n\n    def update(")],
    "predict-any": [(S, PRED, "        if any(v is None or is_nan_all(v) for v in (Bk, uk)):\n            xk_prior = Ak @ xk\n        else:\n            xk_prior = Ak @ xk + Bk @ uk\n")],
    "nan-helper-variants": [(U, "np.isnan(arr).all()", "bool(np.all(np.isnan(arr)))")],
    "nan-helper-not-any": [(U, "np.isnan(arr).all()", "not (~np.isnan(arr)).any()")],
    "nan-helper-tmp": [(U, "    return np.isnan(arr).all()", "    mask = np.isnan(arr)\n    return mask.all()")],
    "none-helper-return": [(U, FULL, "    if arr is not None:\n        return arr\n    return np.full_like(broad_to, np.nan, dtype=float)\n")],
    "none-helper-full": [(U, "np.full_like(broad_to, np.nan, dtype=float)", "np.full(np.shape(broad_to), np.nan)")],
    "none-helper-full2": [(U, "np.full_like(broad_to, np.nan, dtype=float)", "np.full(broad_to.shape, np.nan, dtype=np.float64)")],
    "none-helper-mul": [(U, "np.full_like(broad_to, np.nan, dtype=float)", "np.nan * np.ones(broad_to.shape)")],
    "none-helper-ternary": [(U, FULL, "    return np.full_like(broad_to, np.nan, dtype=float) if arr is None else arr\n")],
    "none-helper-fill": [(U, "        arr = np.full_like(broad_to, np.nan, dtype=float)\n", "        arr = np.empty(broad_to.shape)\n        arr.fill(np.nan)\n")],
    "none-helper-fill2": [(U, "        arr = np.full_like(broad_to, np.nan, dtype=float)\n", "        arr = np.zeros_like(broad_to, dtype=float)\n        arr[...] = np.nan\n")],
    "ctor-if": [(S, "        if state_size:\n            self.state_size = state_size\n        else:\n            self.state_size = self.xk.shape[0]\n", "        self.state_size = state_size if state_size else len(xk)\n")],
    "ctor-or": [(S, "        if state_size:\n            self.state_size = state_size\n        else:\n            self.state_size = self.xk.shape[0]\n", "        self.state_size = state_size or self.xk.shape[0]\n")],
    "ctor-reorder": [(X, "        self.f = f\n        self.jacobian_A = jacobian_A\n        self.xk = xk\n        self.Pk = Pk\n", "        self.xk = xk\n        self.Pk = Pk\n        self.f = f\n        self.jacobian_A = jacobian_A\n"), (X, "np.identity(self.state_size)", "np.eye(self.state_size)")],
    "ctor-list": [(S, "self.kalman_gains: List[np.ndarray] = []", "self.kalman_gains = list()")],
    "rename-private": [(S, "self.__I", "self._identity"), (X, "self.__I", "self._eye")],
    "rename-locals": [(S, "xk_prior", "x_minus"), (S, "Pk_posterior", "P_plus"), (X, "Sk", "innovation_cov")],
    "no-bound-method": [(S, "        predict_func = self.predict\n        update_func = self.update\n\n        # feedback", "        # feedback"), (S, "            xk_prior, Pk_prior = predict_func(", "            xk_prior, Pk_prior = self.predict("), (S, "= update_func(", "= self.update(")],
    "base-class": [("src/kalmankit/_base.py", None, "import numpy as np\n\n\nclass Base:\n    def _correct(self, Hk, xk, Pk, Rk, innovation, eye):\n        Sk = Hk @ (Pk @ Hk.T) + Rk\n        Kk = np.linalg.solve(Sk.T, Hk @ Pk.T).T\n        self.kalman_gains.append(Kk)\n        return xk + Kk @ np.atleast_1d(innovation), (eye - Kk @ Hk) @ Pk\n"), (S, "from kalmankit.utils", "from ._base import Base\nfrom kalmankit.utils"), (X, "from kalmankit.utils", "from ._base import Base\nfrom kalmankit.utils"), (S, "class KalmanFilter:", "class KalmanFilter(Base):"), (X, "class ExtendedKalmanFilter:", "class ExtendedKalmanFilter(Base):"), (S, "        # innovation (pre-fit residual) covariance\n        Sk = Hk @ (Pk @ Hk.T) + Rk\n\n        # optimal kalman gain\n" + GAIN + "\n        # update estimate via zk\n" + POST + "\n        return xk_posterior, Pk_posterior\n", "        return self._correct(Hk, xk, Pk, Rk, zk - Hk @ xk, self.__I)\n"), (X, "        # innovation (pre-fit residual) covariance\n        Sk = Hk @ (Pk @ Hk.T) + Rk\n\n        # optimal kalman gain\n" + GAIN + "\n        # update estimate via zk\n" + XPOST + "\n        return xk_posterior, Pk_posterior\n", "        return self._correct(Hk, xk, Pk, Rk, zk - self.h(xk), self.__I)\n")],
    "base-class-super": [("src/kalmankit/_base.py", None, "import numpy as np\n\n\nclass Base:\n    def __init__(self, xk, Pk, Q, R):\n        self.xk = xk\n        self.Pk = Pk\n        self.Q = Q\n        self.R = R\n        self.kalman_gains = []\n"), (X, "from kalmankit.utils", "from ._base import Base\nfrom kalmankit.utils"), (X, "class ExtendedKalmanFilter:", "class ExtendedKalmanFilter(Base):"), (X, "        self.f = f\n        self.jacobian_A = jacobian_A\n        self.xk = xk\n        self.Pk = Pk\n", "        super().__init__(xk, Pk, Q, R)\n        self.f = f\n        self.jacobian_A = jacobian_A\n"), (X, "        self.Q = Q\n        self.R = R\n", ""), (X, "        self.kalman_gains: List[np.ndarray] = []\n", "")],
    "update-order": [(S, GAIN, "        Kk = np.linalg.solve(Sk.T, Hk @ Pk.T).T\n"), (S, "        return xk_posterior, Pk_posterior\n\n    def filter", "        self.kalman_gains.append(Kk)\n        return xk_posterior, Pk_posterior\n\n    def filter")],
    "gains-iadd": [(S, "self.kalman_gains.append(Kk)", "self.kalman_gains += [Kk]")],
    "gains-insert-end": [(S, "self.kalman_gains.append(Kk)", "self.kalman_gains.extend([Kk])")],
    "innovation-var": [(S, "xk_posterior = xk + Kk @ np.atleast_1d((zk - Hk @ xk))", "yk = np.atleast_1d(zk - Hk @ xk)\n        xk_posterior = xk + Kk @ yk"), (X, "xk_posterior = xk + Kk @ np.atleast_1d((zk - self.h(xk)))", "predicted = self.h(xk)\n        residual = zk - predicted\n        xk_posterior = xk + Kk @ np.atleast_1d(residual)")],
    "innovation-sub": [(S, "xk + Kk @ np.atleast_1d((zk - Hk @ xk))", "xk - Kk @ np.atleast_1d(Hk @ xk - zk)")],
    "innovation-isub": [(X, "xk_posterior = xk + Kk @ np.atleast_1d((zk - self.h(xk)))", "xk_posterior = xk.copy()\n        xk_posterior = xk_posterior + Kk.dot(np.atleast_1d(zk - self.h(xk)))")],
    "asserts": [(S, "        # innovation (pre-fit residual) covariance\n", "        assert Pk.shape == (self.state_size, self.state_size)\n")],
    "validate-z": [(S, ALLOC, "        if len(Z) > len(self.A):\n            raise ValueError('not enough model matrices')\n" + ALLOC)],
    "validate-u": [(S, "        U = check_none_and_broadcast(U, Z)\n        predict_func = self.predict\n        update", "        if U is not None and len(U) < len(Z):\n            raise ValueError('U too short')\n        U = check_none_and_broadcast(U, Z)\n        predict_func = self.predict\n        update")],
    "n-var": [(S, ALLOC, "        n, T = self.state_size, len(Z)\n        states = np.zeros((T, n))\n        errors = np.zeros((T, n, n))\n"), (X, ALLOC, "        T = len(Z)\n        shape = (T, self.state_size)\n        states = np.zeros(shape)\n        errors = np.zeros(shape + (self.state_size,))\n")],
    "u-none-loop": [(X, "        U = check_none_and_broadcast(U, Z)\n        predict_func = self.predict\n        update", "        if U is None:\n            U = check_none_and_broadcast(U, Z)\n        predict_func = self.predict\n        update")],
    "generator": [(S, KFLOOP_HEAD, "        for k, (Ak, Hk, Bk, uk, zk, Qk, Rk) in enumerate(self._steps(Z, U)):\n"), (S, "    def smooth(\n", "    def _steps(self, Z, U):\n        yield from zip(self.A, self.H, self.B, U, Z, self.Q, self.R)\n\n    def smooth(\n")],
    "generator2": [(S, KFLOOP_HEAD, "        for k, (Ak, Hk, Bk, uk, zk, Qk, Rk) in enumerate(self._steps(Z, U)):\n"), (S, "    def smooth(\n", "    def _steps(self, Z, U):\n        for k in range(len(Z)):\n            yield self.A[k], self.H[k], self.B[k], U[k], Z[k], self.Q[k], self.R[k]\n\n    def smooth(\n")],
    "filter-private": [(S, "        x_est, P_est = self.filter(Z=Z, U=U)", "        x_est, P_est = self._run(Z, U)"), (S, "        # mean and covariance array allocation\n        states =", "        return self._run(Z, U)\n\n    def _run(self, Z, U):\n        # mean and covariance array allocation\n        states =")],
    "filter-init-rows": [(X, "        # get initial conditions\n        xk = self.xk\n        Pk = self.Pk\n", "        xk, Pk = self.xk, self.Pk\n")],
    "filter-copy-init": [(X, "        # get initial conditions\n        xk = self.xk\n        Pk = self.Pk\n", "        xk = self.xk.copy()\n        Pk = self.Pk.copy()\n")],
    "filter-asarray": [(S, "        # get initial conditions\n        xk = self.xk\n", "        Z = np.asarray(Z)\n        xk = self.xk\n")],
    "step-method": [(S, KFLOOP, KFLOOP_HEAD + "            xk, Pk = self._step(Ak, Hk, Bk, uk, zk, Qk, Rk, xk, Pk)\n            states[k] = xk\n            errors[k] = Pk\n\n        return states, errors\n\n    def _step(self, Ak, Hk, Bk, uk, zk, Qk, Rk, xk, Pk):\n        xk_prior, Pk_prior = self.predict(Ak=Ak, xk=xk, Bk=Bk, uk=uk, Pk=Pk, Qk=Qk)\n        return self.update(Hk=Hk, xk=xk_prior, Pk=Pk_prior, zk=zk, Rk=Rk)\n")],
    "shape-slice-rows": [(S, "            states[k] = xk_posterior\n            errors[k] = Pk_posterior\n", "            states[k, :] = xk_posterior\n            errors[k, :, :] = Pk_posterior\n"), (S, "x_est[-1]\n", "x_est[len(Z) - 1]\n")],
    "annotations": [(U, "def is_nan_all(arr: np.ndarray) -> bool:", "def is_nan_all(arr):"), (S, "    def update(\n        self,\n        Hk: np.ndarray,", "    def update(\n        self,\n        Hk: 'np.ndarray',")],
    "property-I": [(X, "        self.__I = np.identity(self.state_size)\n", ""), (X, "self.__I", "self._I"), (X, "    def predict(\n", "    @property\n    def _I(self):\n        return np.identity(self.state_size)\n\n    def predict(\n")],
    "slots": [(S, "    def __init__(\n        self,\n        A: np.ndarray,", "    _kind = 'linear'\n\n    def __init__(\n        self,\n        A: np.ndarray,")],
    "repr-added": [(S, "    def predict(\n", "    def __repr__(self):\n        return 'KalmanFilter(n=%d)' % self.state_size\n\n    def predict(\n")],
    "alias-import": [(S, "import numpy as np", "import numpy as np\nfrom numpy import linalg as la"), (S, "np.linalg.solve", "la.solve")],
    "from-import": [(X, "import numpy as np", "import numpy as np\nfrom numpy.linalg import solve"), (X, "np.linalg.solve", "solve")],
    "utils-module": [(S, "from kalmankit.utils import check_none_and_broadcast, is_nan_all", "from . import utils"), (S, "check_none_and_broadcast(", "utils.check_none_and_broadcast("), (S, "is_nan_all(", "utils.is_nan_all(")],
    "einsum": [(S, "Sk = Hk @ (Pk @ Hk.T) + Rk", "Sk = np.einsum('ij,jk,lk->il', Hk, Pk, Hk) + Rk")],
    "tuple-state": [(S, KFLOOP, KFLOOP_HEAD + "            prior = predict_func(Ak=Ak, xk=xk, Bk=Bk, uk=uk, Pk=Pk, Qk=Qk)\n            post = update_func(Hk=Hk, xk=prior[0], Pk=prior[1], zk=zk, Rk=Rk)\n            states[k], errors[k] = post\n            xk, Pk = post\n\n        return states, errors\n")],
    "list-comp-smooth": [(S, "        # to avoid the filter failing\n        U = check_none_and_broadcast(U, Z)\n        A = self.A\n", "        # to avoid the filter failing\n        U = check_none_and_broadcast(U, Z)\n        ahead = [\n            self.predict(Ak=self.A[i + 1], xk=x_est[i], Bk=self.B[i + 1], uk=U[i + 1], Pk=P_est[i], Qk=self.Q[i + 1])\n            for i in range(len(Z) - 1)\n        ]\n        A = self.A\n"), (S, "            # predicted mean and covariance\n            xk_ahead, Pk_ahead = predict_func(\n                Ak=Ak, xk=xk, Bk=Bk, uk=uk, Pk=Pk, Qk=Qk\n            )\n\n            # smooth", "            xk_ahead, Pk_ahead = ahead[k]\n\n            # smooth")],
    "sk-symm-solve": [(S, GAIN, "        PHt = Pk @ Hk.T\n        Kk = np.linalg.solve(Sk, PHt.T).T\n        self.kalman_gains.append(Kk)\n")],
    "gain-copy": [(S, "self.kalman_gains.append(Kk)", "self.kalman_gains.append(Kk.copy())")],
    "kw-only-unused": [(U, "def is_nan_all(arr: np.ndarray) -> bool:", "def is_nan_all(arr: np.ndarray, _axis=None) -> bool:")],
}

KPRED = """            xk_prior, Pk_prior = predict_func(
                Ak=Ak, xk=xk, Bk=Bk, uk=uk, Pk=Pk, Qk=Qk
            )
"""
KUPD = """            xk_posterior, Pk_posterior = update_func(
                Hk=Hk, xk=xk_prior, Pk=Pk_prior, zk=zk, Rk=Rk
            )
"""
SMLOOP = S, """        for k in range(n_obs - 2, -1, -1):
            # select appropiate parameters for each time step
            Ak = A[k + 1]
            Qk = Q[k + 1]
            Bk = B[k + 1]
            uk = U[k + 1]
            Pk = P_est[k]
            xk = x_est[k]
"""
XSM = """            Kk = np.linalg.solve(Pk_ahead.T, (Pk @ Ak.T).T).T
            xk_smooth[k] = x_est[k] + Kk @ (xk_smooth[k + 1] - xk_ahead)
"""
CORPUS.update({
    "namedtuple-step": [(S, "from kalmankit.utils import check_none_and_broadcast, is_nan_all\n", "from kalmankit.utils import check_none_and_broadcast, is_nan_all\n\n\nclass _Estimate(NamedTuple):\n    mean: np.ndarray\n    cov: np.ndarray\n"), (S, "from typing import ", "from typing import NamedTuple, "), (S, KUPD, "            post = _Estimate(\n                *update_func(Hk=Hk, xk=xk_prior, Pk=Pk_prior, zk=zk, Rk=Rk)\n            )\n            xk_posterior, Pk_posterior = post.mean, post.cov\n")],
    "dataclass-step": [(S, "from kalmankit.utils import check_none_and_broadcast, is_nan_all\n", "from kalmankit.utils import check_none_and_broadcast, is_nan_all\n\n\n@dataclass\nclass _Estimate:\n    mean: np.ndarray\n    cov: np.ndarray\n"), (S, "from typing import ", "from dataclasses import dataclass\nfrom typing import "), (S, KUPD, "            post = _Estimate(\n                *update_func(Hk=Hk, xk=xk_prior, Pk=Pk_prior, zk=zk, Rk=Rk)\n            )\n            xk_posterior, Pk_posterior = post.mean, post.cov\n")],
    "kwargs-dict": [(S, KPRED, "            args = dict(Ak=Ak, xk=xk, Bk=Bk, uk=uk, Pk=Pk, Qk=Qk)\n            xk_prior, Pk_prior = predict_func(**args)\n")],
    "partial-predict": [(S, KPRED, "            step = functools.partial(predict_func, Ak=Ak, Bk=Bk, uk=uk, Qk=Qk)\n            xk_prior, Pk_prior = step(xk=xk, Pk=Pk)\n"), (S, "from typing import ", "import functools\nfrom typing import ")],
    "steps-list": [(S, KFLOOP_HEAD, "        steps = list(zip(self.A, self.H, self.B, U, Z, self.Q, self.R))\n        for k, step in enumerate(steps):\n            Ak, Hk, Bk, uk, zk, Qk, Rk = step\n")],
    "zip-count": [(S, KFLOOP_HEAD, "        _iterable = zip(\n            itertools.count(), self.A, self.H, self.B, U, Z, self.Q, self.R\n        )\n        for k, Ak, Hk, Bk, uk, zk, Qk, Rk in _iterable:\n"), (S, "from typing import ", "import itertools\nfrom typing import ")],
    "zip-range": [(X, EKFLOOP_HEAD, "        for k, uk, zk, Qk, Rk in zip(range(len(Z)), U, Z, self.Q, self.R):\n")],
    "nested-zip": [(S, KFLOOP_HEAD, "        model = zip(self.A, self.H, self.B, self.Q, self.R)\n        data = zip(U, Z)\n        for k, ((Ak, Hk, Bk, Qk, Rk), (uk, zk)) in enumerate(zip(model, data)):\n")],
    "static-gain": [(S, "    def predict(\n", "    @staticmethod\n    def _gain(Pk, Hk, Rk):\n        Sk = Hk @ (Pk @ Hk.T) + Rk\n        return np.linalg.solve(Sk.T, Hk @ Pk.T).T\n\n    def predict(\n", 1), (S, "        # innovation (pre-fit residual) covariance\n        Sk = Hk @ (Pk @ Hk.T) + Rk\n\n        # optimal kalman gain\n        Kk = np.linalg.solve(Sk.T, Hk @ Pk.T).T\n", "        Kk = self._gain(Pk, Hk, Rk)\n")],
    "classmethod-gain": [(X, "    def predict(\n", "    @classmethod\n    def _gain(cls, Pk, Hk, Rk):\n        Sk = Hk @ (Pk @ Hk.T) + Rk\n        return np.linalg.solve(Sk.T, Hk @ Pk.T).T\n\n    def predict(\n", 1), (X, "        # innovation (pre-fit residual) covariance\n        Sk = Hk @ (Pk @ Hk.T) + Rk\n\n        # optimal kalman gain\n        Kk = np.linalg.solve(Sk.T, Hk @ Pk.T).T\n", "        Kk = self._gain(Pk, Hk, Rk)\n")],
    "record-gain-method": [(S, "    def predict(\n", "    def _record(self, gain):\n        self.kalman_gains.append(gain)\n        return gain\n\n    def predict(\n", 1), (S, GAIN, "        Kk = self._record(np.linalg.solve(Sk.T, Hk @ Pk.T).T)\n")],
    "matmul-fn": [(S, "        Pk_prior = Ak @ (Pk @ Ak.T) + Qk\n", "        Pk_prior = np.add(np.matmul(np.matmul(Ak, Pk), np.transpose(Ak)), Qk)\n")],
    "transpose-method": [(X, "        Pk_prior = Ak @ (Pk @ Ak.T) + Qk\n", "        Pk_prior = Ak.dot(Pk).dot(Ak.transpose()) + Qk\n")],
    "smooth-reversed-range": [(S, "        for k in range(n_obs - 2, -1, -1):\n", "        for k in reversed(range(n_obs - 1)):\n")],
    "smooth-forward-var": [(S, "        for k in range(n_obs - 2, -1, -1):\n", "        for i in range(1, n_obs):\n            k = n_obs - 1 - i\n")],
    "smooth-next-var": [(SMLOOP[0], SMLOOP[1], SMLOOP[1].replace("            # select appropiate parameters for each time step\n", "            nxt = k + 1\n").replace("[k + 1]", "[nxt]"))],
    "smooth-slices": [(SMLOOP[0], SMLOOP[1], """        ahead = zip(A[1:n_obs], Q[1:n_obs], B[1:n_obs], U[1:n_obs])
        steps = list(enumerate(ahead))
        for k, (Ak, Qk, Bk, uk) in reversed(steps):
            Pk = P_est[k]
            xk = x_est[k]
""")],
    "smooth-zip-rev": [(SMLOOP[0], SMLOOP[1], """        for k, Ak, Qk, Bk, uk in zip(
            range(n_obs - 2, -1, -1),
            A[n_obs - 1:0:-1],
            Q[n_obs - 1:0:-1],
            B[n_obs - 1:0:-1],
            U[n_obs - 1:0:-1],
        ):
            Pk = P_est[k]
            xk = x_est[k]
""")],
    "smooth-method-step": [(X, "    def smooth(\n", "    def _rts(self, xk, Pk, Ak, xk_ahead, Pk_ahead, x_next, P_next):\n        Kk = np.linalg.solve(Pk_ahead.T, (Pk @ Ak.T).T).T\n        x = xk + Kk @ (x_next - xk_ahead)\n        P = Pk + Kk @ ((P_next - Pk_ahead) @ Kk.T)\n        return x, P\n\n    def smooth(\n"), (X, XSM + "            Pk_smooth[k] = P_est[k] + Kk @ ((Pk_smooth[k + 1] - Pk_ahead) @ Kk.T)\n", "            xk_smooth[k], Pk_smooth[k] = self._rts(\n                xk, Pk, Ak, xk_ahead, Pk_ahead, xk_smooth[k + 1], Pk_smooth[k + 1]\n            )\n")],
    "alloc-helper": [(S, "    def predict(\n", "    def _allocate(self, n_obs):\n        n = self.state_size\n        return np.zeros((n_obs, n)), np.zeros((n_obs, n, n))\n\n    def predict(\n", 1), (S, ALLOC, "        states, errors = self._allocate(len(Z))\n"), (S, "        xk_smooth = np.zeros((len(Z), self.state_size))\n        Pk_smooth = np.zeros((len(Z), self.state_size, self.state_size))\n", "        xk_smooth, Pk_smooth = self._allocate(len(Z))\n")],
    "module-run-helper": [(S, "class KalmanFilter", "def _store(states, errors, k, x, P):\n    states[k] = x\n    errors[k] = P\n\n\nclass KalmanFilter", 1), (S, "            states[k] = xk_posterior\n            errors[k] = Pk_posterior\n", "            _store(states, errors, k, xk_posterior, Pk_posterior)\n")],
    "walrus-z": [(S, "        states = np.zeros((len(Z), self.state_size))\n", "        states = np.zeros(((n_obs := len(Z)), self.state_size))\n"), (S, "        errors = np.zeros((len(Z), self.state_size, self.state_size))\n", "        errors = np.zeros((n_obs, self.state_size, self.state_size))\n")],
    "shape0": [(X, "        n_obs = len(Z)\n", "        n_obs = np.shape(Z)[0]\n")],
    "direct-unpack-state": [(S, KUPD + "\n            states[k] = xk_posterior\n            errors[k] = Pk_posterior\n\n            # update estimates for the next iteration\n            xk = xk_posterior\n            Pk = Pk_posterior\n", "            xk, Pk = update_func(\n                Hk=Hk, xk=xk_prior, Pk=Pk_prior, zk=zk, Rk=Rk\n            )\n            states[k], errors[k] = xk, Pk\n")],
    "control-flag": [(S, "        if Bk is None or uk is None or is_nan_all(Bk) or is_nan_all(uk):\n            xk_prior = Ak @ xk\n        else:\n            xk_prior = Ak @ xk + Bk @ uk\n", "        has_control = not (\n            Bk is None or uk is None or is_nan_all(Bk) or is_nan_all(uk)\n        )\n        xk_prior = Ak @ xk\n        if has_control:\n            xk_prior = xk_prior + Bk @ uk\n")],
    "control-term": [(S, "            xk_prior = Ak @ xk\n        else:\n            xk_prior = Ak @ xk + Bk @ uk\n", "            control = 0.0\n        else:\n            control = Bk @ uk\n        xk_prior = Ak @ xk + control\n")],
    "control-none-loop": [(S, "        if Bk is None or uk is None or is_nan_all(Bk) or is_nan_all(uk):\n", "        if any(c is None or is_nan_all(c) for c in (Bk, uk)):\n")],
    "missing-helper-utils": [(U, "def is_nan_all(", "def _missing(arr) -> bool:\n    return arr is None or is_nan_all(arr)\n\n\ndef is_nan_all("), (S, "        if Bk is None or uk is None or is_nan_all(Bk) or is_nan_all(uk):\n", "        if _missing(Bk) or _missing(uk):\n"), (S, "from kalmankit.utils import check_none_and_broadcast, is_nan_all\n", "from kalmankit.utils import _missing, check_none_and_broadcast, is_nan_all\n")],
    "try-finally": [(S, "        x_est, P_est = self.filter(Z=Z, U=U)\n", "        try:\n            x_est, P_est = self.filter(Z=Z, U=U)\n        finally:\n            pass\n")],
    "reraise": [(X, "        Kk = np.linalg.solve(Sk.T, Hk @ Pk.T).T\n        self", "        try:\n            Kk = np.linalg.solve(Sk.T, Hk @ Pk.T).T\n        except np.linalg.LinAlgError:\n            raise\n        self")],
    "raise-from": [(X, "        Kk = np.linalg.solve(Sk.T, Hk @ Pk.T).T\n        self", "        try:\n            Kk = np.linalg.solve(Sk.T, Hk @ Pk.T).T\n        except np.linalg.LinAlgError as e:\n            raise np.linalg.LinAlgError('singular innovation covariance') from e\n        self")],
    "solve-alias": [(S, "from typing import ", "from numpy.linalg import solve\nfrom typing import "), (S, "np.linalg.solve(", "solve(")],
    "init-super-object": [(S, "        self.A = A\n", "        super().__init__()\n        self.A = A\n", 1)],
    "setattr-loop": [(X, "        self.Q = Q\n        self.R = R\n", "        for name, value in ((\"Q\", Q), (\"R\", R)):\n            setattr(self, name, value)\n")],
    "state-size-ternary": [(S, "        if state_size:\n            self.state_size = state_size\n        else:\n            self.state_size = self.xk.shape[0]\n", "        self.state_size = state_size if state_size else len(xk)\n")],
    "eye-n": [(S, "np.identity(self.state_size)", "np.eye(N=self.state_size)")],
    "local-self-attrs": [(S, KFLOOP_HEAD, "        A, H, B, Q, R = self.A, self.H, self.B, self.Q, self.R\n        _iterable = zip(A, H, B, U, Z, Q, R)\n        for k, (Ak, Hk, Bk, uk, zk, Qk, Rk) in enumerate(_iterable):\n")],
    "estimates-list-tuple": [(S, "            states[k] = xk_posterior\n            errors[k] = Pk_posterior\n", "            estimates.append((xk_posterior, Pk_posterior))\n"), (S, ALLOC, "        estimates = []\n"), (S, "        return states, errors\n", "        states = np.zeros((len(Z), self.state_size))\n        errors = np.zeros((len(Z), self.state_size, self.state_size))\n        for k, (x, P) in enumerate(estimates):\n            states[k] = x\n            errors[k] = P\n        return states, errors\n")],
    "smooth-deque": [(S, "from typing import ", "from collections import deque\nfrom typing import ")],
    "iter-protocol": [(X, EKFLOOP_HEAD, "        steps = iter(zip(U, Z, self.Q, self.R))\n        for k, step in enumerate(steps):\n            uk, zk, Qk, Rk = step\n")],
    "filter-recursion-helper": [(X, "            # predict step, get prior estimates\n            xk_prior, Pk_prior = predict_func(xk=xk, uk=uk, Pk=Pk, Qk=Qk)\n\n            # update step, correct prior estimates\n            xk_posterior, Pk_posterior = update_func(\n                xk=xk_prior, Pk=Pk_prior, zk=zk, Rk=Rk\n            )\n", "            xk_posterior, Pk_posterior = self._step(xk, Pk, uk, zk, Qk, Rk)\n"), (X, "    def filter(\n", "    def _step(self, xk, Pk, uk, zk, Qk, Rk):\n        prior = self.predict(xk, uk, Pk, Qk)\n        return self.update(*prior, zk, Rk)\n\n    def filter(\n")],
})
