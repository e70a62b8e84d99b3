"""A second set of bugs, each written from the text of a property alone."""
exec(open(V + "/tools/corpus/keep.py").read().split("CORPUS = {")[0])
PRED = "        if Bk is None or uk is None or is_nan_all(Bk) or is_nan_all(uk):\n            xk_prior = Ak @ xk\n        else:\n            xk_prior = Ak @ xk + Bk @ uk\n"
UPX = "        xk_posterior = xk + Kk @ np.atleast_1d((zk - Hk @ xk))\n"
UPE = "        xk_posterior = xk + Kk @ np.atleast_1d((zk - self.h(xk)))\n"
RETF = "            xk = xk_posterior\n            Pk = Pk_posterior\n\n        return states, errors\n"
ZIP = "        _iterable = zip(self.A, self.H, self.B, U, Z, self.Q, self.R)\n"
EZIP = "        _iterable = zip(U, Z, self.Q, self.R)\n"
CORPUS = {
    "b01-product-nan": [["C01"], (S, PRED, "        xk_prior = Ak @ xk\n        if Bk is not None and uk is not None:\n            control = Bk @ uk\n            if not is_nan_all(control):\n                xk_prior = xk_prior + control\n")],
    "b01-nan-rows": [["C01"], (S, PRED, PRED.replace("Bk @ uk", "np.nan_to_num(Bk @ uk)"))],
    "b01-inf": [["C01"], (S, "is_nan_all(uk)", "not np.isfinite(uk).any()")],
    "b06-tail": [["C06"], (S, ZIP, "        n = len(Z)\n        _iterable = zip(\n            self.A[:n], self.H[:n], self.B[:n], U, Z, self.Q[-n:], self.R[:n]\n        )\n")],
    "b07-tail": [["C07"], (X, EZIP, "        _iterable = zip(U, Z, self.Q, self.R[-len(Z):])\n")],
    "b06-carry-state": [["C06"], (S, "            states[k] = xk_posterior\n", "            states[k] = np.round(xk_posterior, 12)\n")],
    "b06-last-skip": [["C06"], (S, "            states[k] = xk_posterior\n", "            if k == len(self.A) - 1 and k > 10:\n                continue\n            states[k] = xk_posterior\n")],
    "b06-nan-z": [["C06"], (S, "            # update step, correct prior estimates\n", "            if np.isnan(zk).all():\n                states[k], errors[k] = xk_prior, Pk_prior\n                xk, Pk = xk_prior, Pk_prior\n                continue\n            # update step, correct prior estimates\n")],
    "b07-converge": [["C07"], (X, "            Pk = Pk_posterior\n", "            Pk = Pk_posterior if k < 1000 else Pk\n")],
    "b08-n-obs": [["C08"], (S, "        n_obs = len(Z)\n", "        n_obs = len(self.A)\n")],
    "b08-nan-ahead": [["C08"], (S, "            uk = U[k + 1]\n", "            uk = U[k + 1] if not np.isnan(U[k]).any() else U[k]\n")],
    "b09-carry-Ak": [["C09"], (X, "            Ak = self.jacobian_A(xk, uk)\n\n            # smooth", "            Ak = self.jacobian_A(xk_ahead, uk)\n\n            # smooth")],
    "b09-posterior": [["C09"], (X, "            xk = x_est[k]\n", "            xk = xk_smooth[k + 1] if k == n_obs - 2 else x_est[k]\n")],
    "b10-kw": [["C10"], (X, "        xk_prior = self.f(xk, uk)\n", "        xk_prior = self.f(xk, uk=uk)\n")],
    "b10-copy": [["C10"], (X, "        Ak = self.jacobian_A(xk, uk)\n\n        # project", "        Ak = self.jacobian_A(xk, np.atleast_1d(uk)[:1])\n\n        # project")],
    "b10-h-updated": [["C10"], (X, "        Hk = self.jacobian_H(xk)\n", "        Hk = self.jacobian_H(np.round(xk, 8))\n")],
    "b11-innov": [["C11"], (X, "np.atleast_1d((zk - self.h(xk)))", "np.atleast_1d((zk - self.h(xk))).clip(-1e8, 1e8)")],
    "b11-gain-order": [["C11", "C15"], (X, "        self.kalman_gains.append(Kk)\n", "        self.kalman_gains.insert(0, Kk)\n")],
    "b12-u-shape": [["C12"], (S, "        U = check_none_and_broadcast(U, Z)\n        predict_func = self.predict\n        update_func", "        U = [None if U is None else u for u in Z] if U is None else U\n        if U[0] is None:\n            U = np.zeros((len(Z), self.A.shape[-1]))\n        predict_func = self.predict\n        update_func")],
    "b12-mean": [["C12"], (X, "        U = check_none_and_broadcast(U, Z)\n        Q = self.Q", "        U = U if U is not None else np.zeros((len(Z), 1))\n        Q = self.Q")],
    "b13-z": [["C13"], (S, "        # get initial conditions\n", "        if U is not None:\n            U[np.isnan(U)] = 0.0\n        # get initial conditions\n")],
    "b13-sym": [["C13"], (X, "        Sk = Hk @ (Pk @ Hk.T) + Rk\n", "        Pk += Pk.T\n        Pk /= 2\n        Sk = Hk @ (Pk @ Hk.T) + Rk\n")],
    "b13-jac": [["C13"], (X, "        Pk_prior = Ak @ (Pk @ Ak.T) + Qk\n", "        Ak = np.asarray(Ak)\n        Ak[np.abs(Ak) < 1e-300] = 0.0\n        Pk_prior = Ak @ (Pk @ Ak.T) + Qk\n")],
    "b13-h": [["C13"], (X, UPE, "        innovation = self.h(xk)\n        innovation *= -1\n        innovation += zk\n        xk_posterior = xk + Kk @ np.atleast_1d(innovation)\n")],
    "b13-model-Q": [["C13"], (S, "        Q = self.Q\n", "        Q = self.Q\n        Q[0] = 0.0\n")],
    "b14-xk": [["C14"], (S, RETF, RETF.replace("        return", "        self.xk, self.Pk = xk, Pk\n        return"))],
    "b14-lru": [["C14"], (U, "def is_nan_all(", "_seen = {}\n\n\ndef _once(key, fn):\n    if key not in _seen:\n        _seen[key] = fn()\n    return _seen[key]\n\n\ndef is_nan_all("), (S, "        self.__I = np.identity(self.state_size)\n", "        self.__I = np.identity(self.state_size)\n        self._first = None\n"), (S, "        Sk = Hk @ (Pk @ Hk.T) + Rk\n", "        if self._first is None:\n            self._first = Rk\n        Sk = Hk @ (Pk @ Hk.T) + (Rk if np.any(Rk) else self._first)\n")],
    "b14-gains-tail": [["C14"], (X, "        x_est, P_est = self.filter(Z=Z, U=U)\n", "        start = len(self.kalman_gains)\n        x_est, P_est = self.filter(Z=Z, U=U)\n        if start > 100:\n            x_est = x_est + 0.0 * np.max(self.kalman_gains[start])\n            x_est[0] = self.xk\n")],
    "b15-maxlen": [["C15"], (S, "        self.kalman_gains.append(Kk)\n", "        self.kalman_gains.append(Kk)\n        if len(self.kalman_gains) > 100000:\n            self.kalman_gains.pop(0)\n")],
    "b15-smooth-gain": [["C15"], (S, "            xk_smooth[k] = x_est[k] + Kk @ (xk_smooth[k + 1] - xk_ahead)\n", "            self.kalman_gains[k] = Kk\n            xk_smooth[k] = x_est[k] + Kk @ (xk_smooth[k + 1] - xk_ahead)\n")],
    "b15-filter-fresh": [["C15"], (X, "        # get initial conditions\n", "        if len(self.kalman_gains) >= len(Z):\n            self.kalman_gains = []\n        # get initial conditions\n")],
    "b15-mutate-later": [["C15"], (S, "        # update error covariance\n", "        Kk *= 1.0 + 1e-12\n        # update error covariance\n")],
    "b15-if-finite": [["C15"], (X, "        self.kalman_gains.append(Kk)\n", "        if np.isfinite(Kk).all():\n            self.kalman_gains.append(Kk)\n")],
    "b16-squeeze": [["C16"], (S, "        return states, errors\n", "        return np.squeeze(states), errors\n")],
    "b16-trim": [["C16"], (S, "        return states, errors\n", "        keep = ~np.isnan(states).any(axis=1)\n        return states[keep], errors[keep]\n")],
    "b16-self": [["C16"], (X, RETF, RETF.replace("        return", "        self.states = states\n        return"))],
    "b16-type": [["C16"], (X, "        Pk_smooth = np.zeros((len(Z), self.state_size, self.state_size))\n", "        Pk_smooth = np.zeros(P_est.shape, dtype=self.Pk.dtype)\n")],
    "b17-norm": [["C17"], (X, "        # get initial conditions\n", "        if np.max(np.abs(Z)) > 1e12:\n            Z = Z / 1.0000001\n        # get initial conditions\n")],
    "b17-peek": [["C17"], (S, "            # update step, correct prior estimates\n", "            if np.isnan(zk).any() and k + 1 < len(Z):\n                zk = Z[k + 1]\n            # update step, correct prior estimates\n")],
    "b17-last": [["C17"], (S, "            states[k] = xk_posterior\n", "            states[k] = xk_posterior if k < len(Z) - 1 else xk_prior\n")],
    "b18-u": [["C18"], (S, "        Pk_prior = Ak @ (Pk @ Ak.T) + Qk\n", "        Pk_prior = Ak @ (Pk @ Ak.T) + (Qk if np.any(xk) else 1.5 * Qk)\n")],
    "b18-adaptive": [["C18"], (S, "            errors[k] = Pk_posterior\n", "            errors[k] = Pk_posterior\n            if k and np.array_equal(zk, Z[k - 1]):\n                Pk_posterior = Pk_prior\n")],
    "b19-smooth": [["C19"], (S, "                (Pk_smooth[k + 1] - Pk_ahead) @ Kk.T\n", "                Pk_smooth[k + 1] @ Kk.T - Pk_ahead @ Ak\n")],
    "b19-add": [["C19"], (X, "(self.__I - Kk @ Hk) @ Pk\n", "(self.__I - Kk @ Hk) @ Pk + 1e-15 * self.__I\n")],
    "b20-first": [["C20"], (S, "np.atleast_1d((zk - Hk @ xk))", "np.atleast_1d(zk - (Hk @ xk)[0])")],
    "b20-outer": [["C20"], (S, "(self.__I - Kk @ Hk) @ Pk\n", "Pk - np.outer(Kk, Hk) @ Pk\n")],
    "b21-none": [["C21"], (S, "        x_est, P_est = self.filter(Z=Z, U=U)\n", "        try:\n            x_est, P_est = self.filter(Z=Z, U=U)\n        except np.linalg.LinAlgError:\n            return np.full((len(Z), self.state_size), np.nan), np.full((len(Z), self.state_size, self.state_size), np.nan)\n")],
    "b21-partial": [["C21"], (X, "            xk_prior, Pk_prior = predict_func(xk=xk, uk=uk, Pk=Pk, Qk=Qk)\n\n            # update", "            try:\n                xk_prior, Pk_prior = predict_func(xk=xk, uk=uk, Pk=Pk, Qk=Qk)\n            except ValueError:\n                break\n\n            # update")],
    "b21-lstsq": [["C21"], (S, "            Kk = np.linalg.solve(Pk_ahead.T, (Pk @ Ak.T).T).T\n", "            Kk = np.linalg.lstsq(Pk_ahead.T, (Pk @ Ak.T).T, rcond=None)[0].T\n")],
    "b21-det": [["C21"], (S, "        Kk = np.linalg.solve(Sk.T, Hk @ Pk.T).T\n        self", "        if np.linalg.det(np.atleast_2d(Sk)) == 0:\n            Kk = np.zeros_like(Pk @ Hk.T)\n        else:\n            Kk = np.linalg.solve(Sk.T, Hk @ Pk.T).T\n        self")],
    "b22-rand": [["C22"], (S, "        Sk = Hk @ (Pk @ Hk.T) + Rk\n", "        Sk = Hk @ (Pk @ Hk.T) + Rk\n        if not np.any(Rk):\n            Sk = Sk + 1e-12 * np.random.rand()\n")],
    "b22-log": [["C22"], (X, "        Q = self.Q\n", "        if len(Z) > 100000:\n            print('smoothing', len(Z))\n        Q = self.Q\n")],
    "b22-import": [["C22"], (U, "import numpy as np\n", "import numpy as np\n\nnp.seterr(all='ignore')\n")],
    "b22-warn": [["C22"], (U, "import numpy as np\n", "import warnings\n\nimport numpy as np\n\nwarnings.filterwarnings('ignore', category=RuntimeWarning)\n")],
    "b23-floor": [["C23"], (S, UPX, "        innovation = np.atleast_1d(zk - Hk @ xk)\n        innovation[np.abs(innovation) < 1e-13] = 0.0\n        xk_posterior = xk + Kk @ innovation\n")],
    "b23-round": [["C23"], (S, "            xk_smooth[k] = x_est[k] + Kk @ (xk_smooth[k + 1] - xk_ahead)\n", "            xk_smooth[k] = np.around(x_est[k] + Kk @ (xk_smooth[k + 1] - xk_ahead), 14)\n")],
    "b23-bias": [["C23"], (S, "            xk = xk_posterior\n", "            xk = xk_posterior + np.finfo(float).tiny\n")],
    "b24-first-gain": [["C24"], (S, "            # predict step, get prior estimates\n", "            if k == 0 and np.isnan(uk).all():\n                Bk = np.zeros_like(Bk)\n                uk = np.zeros(Bk.shape[-1])\n            # predict step, get prior estimates\n"), (S, "        Pk = self.Pk\n", "        Pk = self.Pk\n        if len(Z) > 1000:\n            Pk = Pk * 1.0000001\n", 1)],
    "b24-every-hundred": [["C24", "C06"], (S, "            xk = xk_posterior\n            Pk = Pk_posterior\n", "            xk = xk_posterior\n            Pk = Pk_posterior\n            if k % 100 == 99:\n                Pk = np.diag(np.diag(Pk))\n")],
    "b25-asarray": [["C25"], (U, "    return arr\n", "    return np.asarray(arr)\n")],
    "b25-size": [["C25"], (U, "    return np.isnan(arr).all()\n", "    return np.isnan(arr).all() and np.size(arr) > 0\n")],
    "b25-reduce": [["C25"], (U, "    return np.isnan(arr).all()\n", "    return bool(np.isnan(np.nanmax(np.where(np.isnan(arr), -np.inf, arr))))\n")],
    "b26-default": [["C26"], (X, "    def filter(\n        self, Z: np.ndarray, U: Optional[np.ndarray] = None\n", "    def filter(\n        self, Z: np.ndarray, U: Optional[np.ndarray]\n")],
    "b26-order": [["C26"], (X, "        self, xk: np.ndarray, Pk: np.ndarray, zk: np.ndarray, Rk: np.ndarray\n", "        self, xk: np.ndarray, Pk: np.ndarray, Rk: np.ndarray, zk: np.ndarray\n")],
    "b26-state-size": [["C26"], (X, "        self.state_size = self.xk.shape[0]  # usually called 'n'\n        self.__I = np.identity(self.state_size)\n", "        self._n = self.xk.shape[0]  # usually called 'n'\n        self.__I = np.identity(self._n)\n"), (X, "self.state_size", "self._n")],
}
