import os as _os
exec(open(_os.path.join(V, "tools", "corpus", "keep.py")).read().split("CORPUS = {")[0])
KSOLVE = "np.linalg.solve(Sk.T, Hk @ Pk.T).T"
CALLF = "        x_est, P_est = self.filter(Z=Z, U=U)\n"
KUPD = "            states[k] = xk_posterior\n            errors[k] = Pk_posterior\n"
NEXT = "            xk = xk_posterior\n            Pk = Pk_posterior\n"
INITC = "        xk = self.xk\n        Pk = self.Pk\n"
FCOV = "        Pk_prior = Ak @ (Pk @ Ak.T) + Qk\n"
APP = "        self.kalman_gains.append(Kk)\n"
ALL26 = ["C%02d" % i for i in range(1, 27)]
CORPUS = {
    # C01
    "c01-or-to-and": [["C01", "C12"], (S, "Bk is None or uk is None or is_nan_all(Bk) or is_nan_all(uk)", "Bk is None or uk is None or (is_nan_all(Bk) and is_nan_all(uk))")],
    "c01-any-nan": [["C01"], (S, "is_nan_all(Bk) or is_nan_all(uk)", "is_nan_all(Bk) or np.isnan(uk).any()")],
    "c01-sum-nan": [["C01"], (S, "is_nan_all(uk):", "np.isnan(np.sum(uk)):")],
    "c01-zero-control": [["C01", "C12"], (S, "            xk_prior = Ak @ xk\n", "            xk_prior = Ak @ np.nan_to_num(xk)\n")],
    "c01-nansum": [["C01"], (S, "Ak @ xk + Bk @ uk", "Ak @ xk + np.nan_to_num(Bk @ uk)")],
    "c01-first-elem": [["C01"], (S, "is_nan_all(uk):", "np.isnan(uk.flat[0]):")],
    "c01-B-post": [["C01"], (S, "Ak @ xk + Bk @ uk", "Ak @ (xk + Bk @ uk)")],
    "c01-fix-reverted": [["C01"], (S, "Bk is None or uk is None or ", "")],
    # C02
    "c02-sym": [["C02"], (S, FCOV, FCOV.replace("+ Qk", "+ np.diag(np.diag(Qk))"))],
    "c02-noT": [["C02"], (S, "(Pk @ Ak.T)", "(Pk @ Ak)")],
    "c02-jac-at-prior": [["C02", "C10"], (X, "        Ak = self.jacobian_A(xk, uk)\n\n        # project state ahead\n        xk_prior = self.f(xk, uk)\n", "        xk_prior = self.f(xk, uk)\n        Ak = self.jacobian_A(xk_prior, uk)\n")],
    "c02-floor": [["C02"], (S, "        return xk_prior, Pk_prior", "        Pk_prior = np.maximum(Pk_prior, 0)\n        return xk_prior, Pk_prior")],
    "c02-jitter": [["C02"], (X, FCOV, FCOV.replace("+ Qk", "+ Qk + 1e-12 * np.identity(self.state_size)"))],
    "c02-control-only": [["C02"], (S, FCOV, "        Pk_prior = Ak @ (Pk @ Ak.T)\n        if uk is not None:\n            Pk_prior = Pk_prior + Qk\n")],
    "c02-inplace-add": [["C13"], (S, FCOV, "        Pk_prior = Ak @ (Pk @ Ak.T)\n        Pk_prior += Qk\n        Pk[:] = Pk_prior\n")],
    # C03
    "c03-pinv": [["C21"], (S, KSOLVE, "Pk @ Hk.T @ np.linalg.pinv(Sk)")],
    "c03-cond": [["C03"], (S, "        # optimal kalman gain\n", "        if np.linalg.cond(Sk) > 1e12:\n            Sk = Sk + 1e-9 * np.identity(Sk.shape[0])\n        # optimal kalman gain\n")],
    "c03-diagR": [["C03"], (X, "+ Rk\n", "+ np.diag(np.diag(Rk))\n")],
    "c03-jac-at-post": [["C03", "C10"], (X, "        Pk_posterior = (self.__I", "        Hk = self.jacobian_H(xk_posterior)\n        Pk_posterior = (self.__I")],
    "c03-gain-clip": [["C03"], (X, APP, "        Kk = np.clip(Kk, -1e6, 1e6)\n" + APP)],
    "c03-record-other": [["C15", "C03"], (S, APP, "        self.kalman_gains.append(Kk @ Hk)\n")],
    # C04
    "c04-gate": [["C04"], (X, XPOST, "        inn = np.atleast_1d((zk - self.h(xk)))\n        if inn @ inn > 1e8:\n            inn = 0 * inn\n        xk_posterior = xk + Kk @ inn\n\n        Pk_posterior = (self.__I - Kk @ Hk) @ Pk\n")],
    "c04-skip-nan": [["C04"], (S, "        # innovation (pre-fit residual) covariance\n", "        if np.isnan(zk).any():\n            return xk, Pk\n        # innovation (pre-fit residual) covariance\n")],
    "c04-hjac": [["C04"], (X, "(zk - self.h(xk))", "(zk - Hk @ xk)")],
    "c04-sign": [["C04"], (S, "(zk - Hk @ xk)", "(Hk @ xk - zk)")],
    "c04-wrap": [["C04"], (X, "np.atleast_1d((zk - self.h(xk)))", "np.atleast_1d(np.arctan2(np.sin(zk - self.h(xk)), np.cos(zk - self.h(xk))))")],
    "c04-round": [["C04"], (S, "(zk - Hk @ xk)", "np.round(zk - Hk @ xk, 12)")],
    # C05
    "c05-identity": [["C05"], (S, "(self.__I - Kk @ Hk) @ Pk", "Pk - Kk @ Hk @ Pk @ Hk.T @ Kk.T")],
    "c05-sym": [["C05"], (S, "(self.__I - Kk @ Hk) @ Pk\n", "(self.__I - Kk @ Hk) @ Pk\n        Pk_posterior = np.triu(Pk_posterior) + np.triu(Pk_posterior, 1).T\n")],
    "c05-joseph-wrong": [["C05"], (S, "(self.__I - Kk @ Hk) @ Pk\n", "(self.__I - Kk @ Hk) @ Pk @ (self.__I - Kk @ Hk).T\n")],
    "c05-prior-gain": [["C05", "C14"], (X, "        Pk_posterior = (self.__I - Kk @ Hk) @ Pk", "        Pk_posterior = (self.__I - self.kalman_gains[0] @ Hk) @ Pk")],
    "c05-eye-m": [["C05", "C20"], (S, "self.__I = np.identity(self.state_size)", "self.__I = np.identity(self.H.shape[1])")],
    # C06
    "c06-skip-first": [["C06"], (S, "            # predict step, get prior estimates\n            xk_prior, Pk_prior = predict_func(\n                Ak=Ak, xk=xk, Bk=Bk, uk=uk, Pk=Pk, Qk=Qk\n            )\n", "            xk_prior, Pk_prior = xk, Pk\n            if k > 0:\n                xk_prior, Pk_prior = predict_func(\n                    Ak=Ak, xk=xk, Bk=Bk, uk=uk, Pk=Pk, Qk=Qk\n                )\n")],
    "c06-store-prior": [["C06"], (S, "            errors[k] = Pk_posterior\n", "            errors[k] = Pk_prior\n")],
    "c06-swap-QR": [["C06"], (S, "Z, self.Q, self.R)", "Z, self.R, self.Q)")],
    "c06-lag-U": [["C06", "C24"], (S, KFLOOP_HEAD, KFLOOP_HEAD + "            uk = U[k - 1] if k else uk\n")],
    "c06-converged": [["C06", "C24"], (S, NEXT, "            if k > 2 and np.allclose(Pk_posterior, Pk):\n                pass\n            else:\n                Pk = Pk_posterior\n            xk = xk_posterior\n")],
    "c06-steady": [["C06", "C15"], (S, KFLOOP_HEAD, KFLOOP_HEAD + "            if k > 100 and np.array_equal(errors[k - 1], errors[k - 2]):\n                states[k] = states[k - 1]\n                errors[k] = errors[k - 1]\n                continue\n")],
    "c06-order": [["C06"], (S, "zip(self.A, self.H, self.B, U, Z, self.Q, self.R)", "zip(self.A, self.H, self.B, U, Z[::-1], self.Q, self.R)")],
    "c06-carry-prior": [["C06"], (S, NEXT, "            xk = xk_posterior\n            Pk = Pk_prior\n")],
    "c06-Q0": [["C06", "C24"], (S, "Pk=Pk, Qk=Qk\n            )\n\n            # update", "Pk=Pk, Qk=self.Q[0]\n            )\n\n            # update")],
    # C07
    "c07-Rk": [["C07"], (X, "zk=zk, Rk=Rk\n", "zk=zk, Rk=self.R[k - 1]\n")],
    "c07-Q-next": [["C07"], (X, "        _iterable = zip(U, Z, self.Q, self.R)", "        _iterable = zip(U, Z, np.roll(self.Q, 1, axis=0), self.R)")],
    "c07-first": [["C07"], (X, "xk=xk, uk=uk, Pk=Pk, Qk=Qk)\n\n            # update", "xk=xk if k else np.zeros_like(xk), uk=uk, Pk=Pk, Qk=Qk)\n\n            # update")],
    "c07-last": [["C07"], (X, "        return states, errors\n", "        errors[-1] = Pk_prior\n        return states, errors\n")],
    "c07-even": [["C07"], (X, "            states[k] = xk_posterior\n", "            states[k - k % 2] = xk_posterior\n")],
    # C08
    "c08-A-k": [["C08"], (S, "Ak = A[k + 1]", "Ak = A[k]")],
    "c08-Q-k": [["C08"], (S, "Qk = Q[k + 1]", "Qk = Q[k]")],
    "c08-U-k": [["C08"], (S, "uk = U[k + 1]", "uk = U[k]")],
    "c08-B-k": [["C08"], (S, "Bk = B[k + 1]", "Bk = B[k]")],
    "c08-no-control": [["C08"], (S, "            xk_ahead, Pk_ahead = predict_func(\n                Ak=Ak, xk=xk, Bk=Bk, uk=uk, Pk=Pk, Qk=Qk\n            )\n", "            xk_ahead = Ak @ xk\n            Pk_ahead = Ak @ (Pk @ Ak.T) + Qk\n")],
    "c08-stop-1": [["C08"], (S, "range(n_obs - 2, -1, -1)", "range(n_obs - 2, 0, -1)")],
    "c08-plus": [["C08"], (S, "(Pk_smooth[k + 1] - Pk_ahead) @ Kk.T", "(Pk_smooth[k + 1] + Pk_ahead) @ Kk.T")],
    "c08-filt-cov": [["C08"], (S, "(Pk_smooth[k + 1] - Pk_ahead)", "(P_est[k + 1] - Pk_ahead)")],
    "c08-last": [["C08"], (S, "        Pk_smooth[-1] = P_est[-1]\n", "        Pk_smooth[-1] = P_est[0]\n")],
    "c08-gain-T": [["C08"], (S, "np.linalg.solve(Pk_ahead.T, (Pk @ Ak.T).T).T", "np.linalg.solve(Pk_ahead.T, (Pk @ Ak.T)).T")],
    # C09
    "c09-jac-smooth": [["C09"], (X, "            Ak = self.jacobian_A(xk, uk)\n\n            # smooth", "            Ak = self.jacobian_A(xk_ahead, uk)\n\n            # smooth")],
    "c09-jac-u": [["C09"], (X, "            Ak = self.jacobian_A(xk, uk)\n\n            # smooth", "            Ak = self.jacobian_A(xk, U[k])\n\n            # smooth")],
    "c09-Qk": [["C09"], (X, "            Qk = Q[k + 1]", "            Qk = Q[k]")],
    "c09-est": [["C09"], (X, "Kk @ (xk_smooth[k + 1] - xk_ahead)", "Kk @ (x_est[k + 1] - xk_ahead)")],
    "c09-pinv": [["C21"], (X, "np.linalg.solve(Pk_ahead.T, (Pk @ Ak.T).T).T", "Pk @ Ak.T @ np.linalg.pinv(Pk_ahead)")],
    # C10
    "c10-kw": [["C10"], (X, "self.f(xk, uk)", "self.f(xk, uk=uk)")],
    "c10-only-x": [["C10"], (X, "self.jacobian_A(xk, uk)\n\n        # project", "self.jacobian_A(xk)\n\n        # project")],
    "c10-h-u": [["C10"], (X, "self.h(xk)", "self.h(xk, None)")],
    "c10-copy-mut": [["C10"], (X, "        xk_prior = self.f(xk, uk)\n", "        xk_prior = self.f(np.atleast_2d(xk), uk)\n")],
    "c10-probe": [["C10"], (X, "        self.kalman_gains: List[np.ndarray] = []\n", "        self.kalman_gains: List[np.ndarray] = []\n        self.f(self.xk, np.zeros(1))\n")],
    "c10-none-u": [["C12", "C10"], (X, "        Ak = self.jacobian_A(xk, uk)\n\n        # project", "        if uk is not None and np.isnan(uk).all():\n            uk = None\n        Ak = self.jacobian_A(xk, uk)\n\n        # project")],
    # C12
    "c12-fix-reverted": [["C12", "C25"], (U, "np.full_like(broad_to, np.nan, dtype=float)", "np.full_like(broad_to, np.nan)")],
    "c12-zero-u": [["C12", "C25"], (U, "np.full_like(broad_to, np.nan, dtype=float)", "np.zeros_like(broad_to, dtype=float)")],
    "c12-u-len": [["C12"], (X, "U = check_none_and_broadcast(U, Z)\n        predict", "U = check_none_and_broadcast(U, Z[:1])\n        predict")],
    # C13
    "c13-inplace-x": [["C13"], (S, "        xk_posterior = xk + Kk @ np.atleast_1d((zk - Hk @ xk))\n", "        xk_posterior = xk\n        xk_posterior += Kk @ np.atleast_1d((zk - Hk @ xk))\n")],
    "c13-nanfill": [["C13"], (S, "        U = check_none_and_broadcast(U, Z)\n        predict_func", "        U = check_none_and_broadcast(U, Z)\n        U[np.isnan(U)] = 0\n        predict_func")],
    "c13-set-attr": [["C13", "C14"], (S, "            Pk = Pk_posterior\n\n        return states, errors\n", "            Pk = Pk_posterior\n\n        self.xk, self.Pk = xk, Pk\n        return states, errors\n")],
    "c13-fill-diag": [["C13"], (X, FCOV, "        np.fill_diagonal(Qk, np.abs(np.diagonal(Qk)))\n" + FCOV)],
    "c13-out": [["C13"], (X, "        xk_prior = self.f(xk, uk)\n", "        xk_prior = self.f(xk, uk)\n        xk_prior = np.asarray(xk_prior)\n        xk_prior[...] = np.add(xk_prior, 0.0, out=xk_prior)\n")],
    "c13-buffer": [["C13"], (X, NEXT, "            xk[:] = xk_posterior\n            Pk = Pk_posterior\n")],
    "c13-jac-inplace": [["C13"], (X, "        Hk = self.jacobian_H(xk)\n", "        Hk = self.jacobian_H(xk)\n        Hk *= 1.0\n")],
    # C14
    "c14-gain-len": [["C14"], (S, KFLOOP_HEAD, KFLOOP_HEAD + "            if len(self.kalman_gains) > 1000:\n                Qk = 2 * Qk\n")],
    "c14-cache-prior": [["C14"], (X, "        x_est, P_est = self.filter(Z=Z, U=U)\n", "        if getattr(self, '_cache', None) is None:\n            self._cache = self.filter(Z=Z, U=U)\n        x_est, P_est = self._cache\n")],
    "c14-class-gain": [["C14"], (S, "        self.kalman_gains: List[np.ndarray] = []\n", ""), (S, "    def __init__(\n        self,\n        A", "    kalman_gains: List[np.ndarray] = []\n\n    def __init__(\n        self,\n        A")],
    "c14-default-list": [["C14"], (S, "        state_size: int = None,\n    ):", "        state_size: int = None,\n        _g=[],\n    ):"), (S, "self.kalman_gains: List[np.ndarray] = []", "self.kalman_gains: List[np.ndarray] = _g")],
    "c14-modcache": [["C14"], (U, "__all__", "_CACHE = {}\n__all__"), (U, "        arr = np.full_like(broad_to, np.nan, dtype=float)\n", "        arr = _CACHE.setdefault('u', np.full_like(broad_to, np.nan, dtype=float))\n")],
    "c14-keep-posterior": [["C14"], (S, INITC, "        xk = getattr(self, '_x', self.xk)\n        Pk = self.Pk\n"), (S, "        return states, errors\n", "        self._x = xk\n        return states, errors\n")],
    # C15
    "c15-clear": [["C15"], (S, INITC, "        self.kalman_gains.clear()\n" + INITC)],
    "c15-reset": [["C15"], (X, INITC, "        self.kalman_gains = []\n" + INITC)],
    "c15-smooth-append": [["C15"], (S, "            xk_smooth[k] = x_est[k] + Kk", "            self.kalman_gains.append(Kk)\n            xk_smooth[k] = x_est[k] + Kk")],
    "c15-insert": [["C15"], (S, APP, "        self.kalman_gains.insert(0, Kk)\n")],
    "c15-bounded": [["C15"], (S, APP, APP + "        if len(self.kalman_gains) > 500:\n            self.kalman_gains.pop(0)\n")],
    "c15-double-filter": [["C15"], (X, CALLF, CALLF + "        P_est = self.filter(Z=Z, U=U)[1]\n")],
    "c15-before-solve": [["C15"], (X, APP, "        if not self.kalman_gains or not np.array_equal(self.kalman_gains[-1], Kk):\n            self.kalman_gains.append(Kk)\n")],
    "c15-alias": [["C15"], (X, APP, "        Kk = Kk.copy()\n" + APP), (X, "        Pk_posterior = (self.__I - Kk @ Hk) @ Pk\n", "        Pk_posterior = (self.__I - Kk @ Hk) @ Pk\n        Kk *= 0.0\n")],
    "c15-deque": [["C15"], (S, "import numpy as np\n", "from collections import deque\n\nimport numpy as np\n", 1), (S, "self.kalman_gains: List[np.ndarray] = []", "self.kalman_gains = deque(maxlen=4096)")],
    "c15-slice": [["C15"], (X, APP, APP + "        self.kalman_gains = self.kalman_gains[-1000:]\n")],
    "c15-del": [["C15"], (S, APP, APP + "        if len(self.kalman_gains) > 1000:\n            del self.kalman_gains[:-1000]\n")],
    "c15-nan": [["C15"], (X, APP, "        if not np.isnan(zk).any():\n            self.kalman_gains.append(Kk)\n")],
    "c15-replace": [["C15"], (S, APP, "        if self.kalman_gains and np.allclose(self.kalman_gains[-1], Kk):\n            self.kalman_gains[-1] = Kk\n        else:\n            self.kalman_gains.append(Kk)\n")],
    "c15-one": [["C15"], (S, "        states = np.zeros((len(Z), self.state_size))\n", "        states = np.zeros((len(Z), self.state_size))\n        if len(Z) == 1:\n            self.kalman_gains = []\n")],
    "c15-smooth-restore": [["C15"], (X, CALLF, "        _g = list(self.kalman_gains)\n" + CALLF + "        if len(_g) > 0:\n            self.kalman_gains = _g\n")],
    "c15-dup": [["C15"], (S, APP, APP.replace("Kk", "Kk if np.isfinite(Kk).all() else np.zeros_like(Kk)"))],
    # C16
    "c16-empty-dtype": [["C16"], (S, "states = np.zeros((len(Z), self.state_size))", "states = np.zeros((len(Z), self.state_size), dtype=Z.dtype)")],
    "c16-float32": [["C16"], (X, "errors = np.zeros((len(Z), self.state_size, self.state_size))", "errors = np.zeros((len(Z), self.state_size, self.state_size), dtype=np.float32)")],
    "c16-len-A": [["C16"], (S, "states = np.zeros((len(Z), self.state_size))", "states = np.zeros((len(self.A), self.state_size))")],
    "c16-extra-row": [["C16"], (S, "states = np.zeros((len(Z), self.state_size))", "states = np.zeros((len(Z) + 1, self.state_size))")],
    "c16-buffer": [["C16"], (S, "        return xk_smooth, Pk_smooth\n", "        self._last = xk_smooth\n        return xk_smooth, Pk_smooth\n")],
    "c16-like": [["C16"], (S, "xk_smooth = np.zeros((len(Z), self.state_size))", "xk_smooth = np.zeros_like(Z, shape=(len(Z), self.state_size))")],
    "c16-prealloc": [["C16"], (X, "        states = np.zeros((len(Z), self.state_size))\n", "        if getattr(self, '_s', None) is None or len(self._s) != len(Z):\n            self._s = np.zeros((len(Z), self.state_size))\n        states = self._s\n")],
    "c16-filter-view": [["C16"], (S, "        xk_smooth = np.zeros((len(Z), self.state_size))\n", "        xk_smooth = x_est\n        self._filtered = x_est\n")],
    # C17
    "c17-mean-z": [["C17", "C24"], (S, INITC, "        Z = Z - 1e-6 * np.mean(Z, axis=0)\n" + INITC)],
    "c17-R-avg": [["C17", "C24"], (S, "Z, self.Q, self.R)", "Z, self.Q, np.broadcast_to(np.mean(self.R, axis=0), self.R.shape))")],
    "c17-next-R": [["C17"], (X, "zk=zk, Rk=Rk\n", "zk=zk, Rk=self.R[min(k + 1, len(Z) - 1)]\n")],
    "c17-len": [["C17"], (X, "xk=xk, uk=uk, Pk=Pk, Qk=Qk)\n\n            # update", "xk=xk, uk=uk, Pk=Pk, Qk=Qk if k < len(Z) - 1 else 2 * Qk)\n\n            # update")],
    "c17-overwrite": [["C17"], (S, "            # update estimates for the next iteration\n", "            if k:\n                states[k - 1] = 0.5 * (states[k - 1] + xk_posterior)\n            # update estimates for the next iteration\n")],
    # C18
    "c18-infl": [["C18"], (S, FCOV, "        Pk_prior = Ak @ (Pk @ Ak.T) + Qk\n        if np.abs(xk_prior).max() > 1e6:\n            Pk_prior = 2 * Pk_prior\n")],
    "c18-nan-z": [["C18", "C05"], (S, "        Pk_posterior = (self.__I - Kk @ Hk) @ Pk\n", "        Pk_posterior = Pk if np.isnan(zk).all() else (self.__I - Kk @ Hk) @ Pk\n")],
    "c18-control-noise": [["C18", "C02"], (S, "            xk_prior = Ak @ xk + Bk @ uk\n", "            xk_prior = Ak @ xk + Bk @ uk\n            Qk = Qk + 1e-3 * (Bk @ Bk.T)\n")],
    # C19
    "c19-smooth": [["C19"], (S, "(Pk_smooth[k + 1] - Pk_ahead) @ Kk.T", "(Pk_smooth[k + 1] - Pk_ahead) @ Ak.T")],
    "c19-pred": [["C19"], (X, FCOV, "        Pk_prior = Ak @ Pk + Qk\n")],
    # C20
    "c20-scalarR": [["C20"], (X, "np.atleast_1d((zk - self.h(xk)))", "(zk - self.h(xk))")],
    "c20-squeeze": [["C20"], (S, "Kk @ np.atleast_1d((zk - Hk @ xk))", "Kk @ np.atleast_2d((zk - Hk @ xk))")],
    "c20-eyeH": [["C20"], (S, "(self.__I - Kk @ Hk)", "(np.identity(len(zk)) - Kk @ Hk)")],
    "c20-item": [["C20"], (S, "Kk @ np.atleast_1d((zk - Hk @ xk))", "Kk.ravel() * np.atleast_1d((zk - Hk @ xk))")],
    "c20-cho": [["C20"], (S, "states = np.zeros((len(Z), self.state_size))", "states = np.zeros((len(Z), Z.shape[1]))")],
    # C21
    "c21-try-update": [["C21"], (S, "        Kk = " + KSOLVE + "\n", "        try:\n            Kk = " + KSOLVE + "\n        except np.linalg.LinAlgError:\n            Kk = np.zeros_like(Pk @ Hk.T)\n")],
    "c21-lstsq": [["C21"], (X, KSOLVE, "np.linalg.lstsq(Sk.T, Hk @ Pk.T, rcond=None)[0].T")],
    "c21-try-loop": [["C21"], (X, NEXT, NEXT), (X, "            xk_prior, Pk_prior = predict_func(xk=xk, uk=uk, Pk=Pk, Qk=Qk)\n\n            # update", "            try:\n                xk_prior, Pk_prior = predict_func(xk=xk, uk=uk, Pk=Pk, Qk=Qk)\n            except Exception:\n                break\n\n            # update")],
    "c21-jac-fallback": [["C21"], (X, "        Ak = self.jacobian_A(xk, uk)\n\n        # project", "        try:\n            Ak = self.jacobian_A(xk, uk)\n        except ZeroDivisionError:\n            Ak = np.identity(self.state_size)\n\n        # project")],
    "c21-smooth-sing": [["C21"], (S, "            Kk = np.linalg.solve(Pk_ahead.T, (Pk @ Ak.T).T).T\n", "            try:\n                Kk = np.linalg.solve(Pk_ahead.T, (Pk @ Ak.T).T).T\n            except np.linalg.LinAlgError:\n                Kk = Pk @ Ak.T @ np.linalg.pinv(Pk_ahead)\n")],
    "c21-finally": [["C21"], (X, "        Hk = self.jacobian_H(xk)\n", "        Hk = None\n        try:\n            Hk = self.jacobian_H(xk)\n        finally:\n            if Hk is None:\n                return xk, Pk\n")],
    "c21-suppress": [["C21"], (X, "import numpy as np\n", "from contextlib import suppress\n\nimport numpy as np\n"), (X, "            xk_prior, Pk_prior = predict_func(xk=xk, uk=uk, Pk=Pk, Qk=Qk)\n\n            # update", "            xk_prior, Pk_prior = xk, Pk\n            with suppress(ValueError):\n                xk_prior, Pk_prior = predict_func(xk=xk, uk=uk, Pk=Pk, Qk=Qk)\n\n            # update")],
    # C22
    "c22-seterr": [["C22"], (S, "import numpy as np\n", "import numpy as np\n\nnp.seterr(all='raise')\n")],
    "c22-jitter": [["C22"], (S, "+ Rk\n", "+ Rk + 1e-15 * np.random.rand()\n")],
    "c22-print": [["C22"], (X, "        return xk_smooth, Pk_smooth\n", "        print('smoothed', len(Z))\n        return xk_smooth, Pk_smooth\n")],
    "c22-env": [["C22"], (S, "import numpy as np\n", "import os\n\nimport numpy as np\n"), (S, "        if state_size:\n", "        if os.environ.get('KALMAN_N'):\n            state_size = int(os.environ['KALMAN_N'])\n        if state_size:\n")],
    "c22-warn": [["C22"], (U, "import numpy as np\n", "import warnings\n\nimport numpy as np\n\nwarnings.filterwarnings('ignore')\n")],
    "c22-errstate-leak": [["C22"], (U, "    return np.isnan(arr).all()", "    np.seterr(invalid='ignore')\n    return np.isnan(arr).all()")],
    "c22-printopts": [["C22"], (INIT, "__all__", "import numpy\n\nnumpy.set_printoptions(precision=4)\n__all__")],
    "c22-time": [["C22"], (S, "import numpy as np\n", "import time\n\nimport numpy as np\n"), (S, INITC, "        self._t0 = time.perf_counter()\n" + INITC)],
    # C23
    "c23-offset": [["C23"], (S, "            xk_prior = Ak @ xk\n", "            xk_prior = Ak @ xk + 1e-12\n")],
    "c23-clip": [["C23"], (S, "            xk_prior = Ak @ xk\n", "            xk_prior = np.clip(Ak @ xk, -1e9, 1e9)\n")],
    "c23-quad": [["C23"], (S, "        xk_posterior = xk + Kk @ np.atleast_1d((zk - Hk @ xk))\n", "        xk_posterior = xk + Kk @ np.atleast_1d((zk - Hk @ xk)) + 0.0 * xk * xk + 1e-30 * xk * xk\n")],
    # C24
    "c24-k0": [["C24", "C06"], (S, "                Ak=Ak, xk=xk, Bk=Bk, uk=uk, Pk=Pk, Qk=Qk\n            )\n\n            # update", "                Ak=Ak, xk=xk, Bk=Bk, uk=uk, Pk=Pk, Qk=Qk * (k > 0)\n            )\n\n            # update")],
    "c24-cumP": [["C24"], (X, NEXT, "            xk = xk_posterior\n            Pk = Pk_posterior if k % 50 else 0.5 * (Pk_posterior + Pk_posterior.T) + 1e-9 * self.Pk\n")],
    # C25
    "c25-copy": [["C25"], (U, "    return arr\n", "    return np.asarray(arr)\n")],
    "c25-any": [["C25", "C01"], (U, "np.isnan(arr).all()", "np.isnan(arr).any()")],
    "c25-truthy": [["C25"], (U, "if arr is None:", "if arr is None or len(arr) == 0:")],
    "c25-shape": [["C25"], (U, "np.full_like(broad_to, np.nan, dtype=float)", "np.full(len(broad_to), np.nan)")],
    "c25-isnan-sum": [["C25"], (U, "np.isnan(arr).all()", "np.isnan(np.sum(arr))")],
    "c25-inf": [["C25"], (U, "np.isnan(arr).all()", "(~np.isfinite(arr)).all()")],
    "c25-f16": [["C25"], (U, "dtype=float)", "dtype=broad_to.dtype if broad_to.dtype.kind == 'f' else int)")],
    # C26
    "c26-kwonly": [["C26"], (S, "self, Z: np.ndarray, U: Optional[np.ndarray] = None\n    ) -> Tuple[np.ndarray, np.ndarray]:\n        r\"\"\"Rauch", "self, Z: np.ndarray, *, U: Optional[np.ndarray] = None\n    ) -> Tuple[np.ndarray, np.ndarray]:\n        r\"\"\"Rauch")],
    "c26-rename": [["C26"], (S, "        Qk: np.ndarray,\n    ) -> ", "        Q_k: np.ndarray,\n    ) -> "), (S, "+ Qk\n", "+ Q_k\n"), (S, "                Ak=Ak, xk=xk, Bk=Bk, uk=uk, Pk=Pk, Qk=Qk\n", "                Ak=Ak, xk=xk, Bk=Bk, uk=uk, Pk=Pk, Q_k=Qk\n")],
    "c26-required": [["C26"], (X, "self, Z: np.ndarray, U: Optional[np.ndarray] = None\n    ) -> Tuple[np.ndarray, np.ndarray]:\n        \"\"\"Run", "self, Z: np.ndarray, U: Optional[np.ndarray]\n    ) -> Tuple[np.ndarray, np.ndarray]:\n        \"\"\"Run"), ],
    "c26-all": [["C26"], (INIT, '"utils"]', '"utils", "smooth"]')],
    "c26-swap": [["C26"], (S, "        Hk: np.ndarray,\n        xk: np.ndarray,\n        Pk: np.ndarray,\n        zk", "        xk: np.ndarray,\n        Hk: np.ndarray,\n        Pk: np.ndarray,\n        zk")],
    "c26-noattr": [["C26"], (X, "        self.state_size = self.xk.shape[0]  # usually called 'n'\n        self.__I = np.identity(self.state_size)", "        self._n = self.xk.shape[0]  # usually called 'n'\n        self.__I = np.identity(self._n)"), (X, "self.state_size", "self._n")],
    "c26-swap-ctor": [["C26"], (X, "        f: Callable,\n        h: Callable,\n", "        h: Callable,\n        f: Callable,\n")],
}
