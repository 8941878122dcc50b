"""A stand-in for the compiled extension diff_diff._rust_backend, written from its documented interface, and a way to import the
library afresh under a value of DIFF_DIFF_BACKEND with or without it.  Replies can be scripted per routine; calls are recorded."""
import importlib
import os
import sys
import types
import numpy as np

MSG = {"unstable": "Matrix inversion numerically unstable (residual=1.00e+00 > threshold=1.00e-06). Design matrix may be near-singular.",
       "singular": "Least squares failed: matrix is singular", "inversion": "Matrix inversion failed (singular matrix)", "other": "shape mismatch in the extension"}
NAMES = ["generate_bootstrap_weights_batch", "compute_synthetic_weights", "project_simplex", "solve_ols", "compute_robust_vcov", "compute_unit_distance_matrix",
         "loocv_grid_search", "bootstrap_trop_variance", "loocv_grid_search_joint", "bootstrap_trop_variance_joint"]


class Standin:
    def __init__(self):
        self.calls = []          # (routine, arguments)
        self.script = {}         # routine -> list of replies still to give ("ok" when exhausted)
        self.value = {}          # routine -> value to return with the reply ok

    def reply(self, name, args):
        self.calls.append((name, args))
        s = self.script.get(name)
        r = s.pop(0) if s else "ok"
        if r in MSG: raise ValueError(MSG[r])
        if r == "error": raise RuntimeError("the extension failed")
        return r

    def module(self, without=None):
        m = types.ModuleType("diff_diff._rust_backend")
        for n in NAMES:
            if n != without: setattr(m, n, getattr(self, n))
        m.__version__ = "stand-in"
        return m

    # ------------------------------------------------ linear algebra
    @staticmethod
    def cov(X, u, g):
        n, k = X.shape
        bread = np.linalg.inv(X.T @ X)
        if g is None:
            meat = (X * (u ** 2)[:, None]).T @ X * (n / (n - k) if n > k else np.nan)
        else:
            G = len(set(g.tolist()))
            if G < 2: raise ValueError("Need at least 2 clusters for cluster-robust SEs, got %d" % G)
            S = np.zeros((int(g.max()) + 1, k))
            np.add.at(S, g, X * u[:, None])
            meat = S.T @ S * ((G / (G - 1)) * ((n - 1) / (n - k)) if n > k else np.nan)
        return bread @ meat @ bread

    @staticmethod
    def typed(a, nd, kind):
        if not isinstance(a, np.ndarray) or a.ndim != nd or a.dtype != kind:
            raise TypeError("argument: cannot convert %r" % (getattr(a, "dtype", type(a)),))
        return a

    def solve_ols(self, x, y, cluster_ids=None, return_vcov=True):
        X, y = self.typed(x, 2, np.float64), self.typed(y, 1, np.float64)
        g = None if cluster_ids is None else self.typed(cluster_ids, 1, np.int64)
        r = self.reply("solve_ols", (X.copy(), y.copy(), None if g is None else g.copy(), bool(return_vcov)))
        b = np.linalg.lstsq(X, y, rcond=None)[0]
        u = y - X @ b
        V = None
        if return_vcov: V = np.full((X.shape[1],) * 2, np.nan) if r == "nanvcov" else self.cov(X, u, g)
        return b, u, V

    def compute_robust_vcov(self, x, residuals, cluster_ids=None):
        X, u = self.typed(x, 2, np.float64), self.typed(residuals, 1, np.float64)
        g = None if cluster_ids is None else self.typed(cluster_ids, 1, np.int64)
        self.reply("compute_robust_vcov", (X.copy(), u.copy(), None if g is None else g.copy(), True))
        return self.cov(X, u, g)

    # ------------------------------------------------ weights
    def generate_bootstrap_weights_batch(self, n_bootstrap, n_units, weight_type, seed):
        if not 0 <= int(seed) < 2 ** 64: raise OverflowError("seed")
        self.reply("generate_bootstrap_weights_batch", (int(n_bootstrap), int(n_units), str(weight_type), int(seed)))
        W = self.value.get("weights")
        if W is not None: return np.array(W(int(n_bootstrap), int(n_units)), dtype=float)
        rng = np.random.default_rng([int(seed), 7])
        return rng.choice([-1.0, 1.0], size=(int(n_bootstrap), int(n_units)))

    def project_simplex(self, v):
        self.calls.append(("project_simplex", None))
        s = np.sort(v)[::-1]
        c = np.cumsum(s) - 1
        k = np.nonzero(s - c / np.arange(1, len(v) + 1) > 0)[0][-1]
        return np.maximum(v - c[k] / (k + 1), 0)

    def compute_synthetic_weights(self, y_control, y_treated, lambda_reg=0.0, max_iter=None, tol=None):
        A, b = self.typed(y_control, 2, np.float64), self.typed(y_treated, 1, np.float64)
        self.reply("compute_synthetic_weights", (A.copy(), b.copy(), float(lambda_reg)))
        n = A.shape[1]
        if "qp" in self.value: return np.array([self.value["qp"][i % len(self.value["qp"])] for i in range(n)])
        H = A.T @ A + lambda_reg * np.eye(n)
        f = A.T @ b
        w = np.full(n, 1.0 / n)
        L = np.linalg.norm(H, 2) + 1e-12
        z, t = w.copy(), 1.0
        for _ in range(20000):
            v = z - (H @ z - f) / L
            s = np.sort(v)[::-1]
            c = np.cumsum(s) - 1
            k = np.nonzero(s - c / np.arange(1, n + 1) > 0)[0][-1]
            w2 = np.maximum(v - c[k] / (k + 1), 0)
            t2 = (1 + np.sqrt(1 + 4 * t * t)) / 2
            if (w2 - w) @ (z - w2) > 0: t2, z = 1.0, w2
            else: z = w2 + (t - 1) / t2 * (w2 - w)
            if np.abs(w2 - w).max() < 1e-13: w = w2; break
            w, t = w2, t2
        return w

    # ------------------------------------------------ TROP
    def compute_unit_distance_matrix(self, y, d):
        Y, D = self.typed(y, 2, np.float64), self.typed(d, 2, np.float64)
        self.reply("compute_unit_distance_matrix", (Y.copy(), D.copy()))
        ok = (D == 0) & np.isfinite(Y)
        n = Y.shape[1]
        M = np.full((n, n), np.inf)
        for i in range(n):
            M[i, i] = 0.0
            for j in range(n):
                v = ok[:, i] & ok[:, j]
                if i != j and v.any(): M[i, j] = np.sqrt(np.mean((Y[v, i] - Y[v, j]) ** 2))
        return M

    def _loo(self, name, Y, D, mask, dist, gt, gu, gn, mx, it, tol, seed):
        for a, nd, k in ((Y, 2, np.float64), (D, 2, np.float64), (mask, 2, np.uint8), (gt, 1, np.float64), (gu, 1, np.float64), (gn, 1, np.float64)): self.typed(a, nd, k)
        if dist is not None: self.typed(dist, 2, np.int64)
        if int(seed) < 0: raise OverflowError("seed")
        r = self.reply(name, {"Y": Y.copy(), "D": D.copy(), "mask": mask.copy(), "dist": None if dist is None else dist.copy(), "gt": gt.copy(), "gu": gu.copy(), "gn": gn.copy(),
                              "mx": int(mx), "it": int(it), "tol": float(tol), "seed": int(seed)})
        lt, lu, ln, score = self.value["loo"]
        if r == "none": return lt, lu, ln, float("inf"), 0, 9, (1, 0)
        if r == "some": return lt, lu, ln, score, 5, 9, (1, 0)
        return lt, lu, ln, score, 9, 9, None

    def loocv_grid_search(self, y, d, control_mask, time_dist_matrix, lambda_time_grid, lambda_unit_grid, lambda_nn_grid, max_loocv_samples, max_iter, tol, seed):
        return self._loo("loocv_grid_search", y, d, control_mask, time_dist_matrix, lambda_time_grid, lambda_unit_grid, lambda_nn_grid, max_loocv_samples, max_iter, tol, seed)

    def loocv_grid_search_joint(self, y, d, control_mask, lambda_time_grid, lambda_unit_grid, lambda_nn_grid, max_loocv_samples, max_iter, tol, seed):
        return self._loo("loocv_grid_search_joint", y, d, control_mask, None, lambda_time_grid, lambda_unit_grid, lambda_nn_grid, max_loocv_samples, max_iter, tol, seed)

    def _boot(self, name, Y, D, mask, dist, lam, B, it, tol, seed):
        for a, nd, k in ((Y, 2, np.float64), (D, 2, np.float64)): self.typed(a, nd, k)
        if mask is not None: self.typed(mask, 2, np.uint8); self.typed(dist, 2, np.int64)
        r = self.reply(name, {"Y": Y.copy(), "D": D.copy(), "mask": None if mask is None else mask.copy(), "dist": None if dist is None else dist.copy(), "lam": [float(v) for v in lam],
                              "B": int(B), "it": int(it), "tol": float(tol), "seed": int(seed)})
        draws = np.array(self.value["draws"], dtype=float)
        if r == "few": draws = draws[:6]
        if r == "zero": draws = draws[:0]
        return draws, float(np.std(draws, ddof=1)) if len(draws) > 1 else 0.0

    def bootstrap_trop_variance(self, y, d, control_mask, time_dist_matrix, lambda_time, lambda_unit, lambda_nn, n_bootstrap, max_iter, tol, seed):
        return self._boot("bootstrap_trop_variance", y, d, control_mask, time_dist_matrix, (lambda_time, lambda_unit, lambda_nn), n_bootstrap, max_iter, tol, seed)

    def bootstrap_trop_variance_joint(self, y, d, lambda_time, lambda_unit, lambda_nn, n_bootstrap, max_iter, tol, seed):
        return self._boot("bootstrap_trop_variance_joint", y, d, None, None, (lambda_time, lambda_unit, lambda_nn), n_bootstrap, max_iter, tol, seed)


EXT = "diff_diff._rust_backend"


def ours(also):
    return [n for n in sys.modules if n == "diff_diff" or n.startswith("diff_diff.") or n in also]


class Lib:
    """one import of the library; imports it makes while it runs must find its own modules again"""

    def __init__(self, env, module, also=()):
        self.also = list(also)
        for n in ours(self.also):
            del sys.modules[n]
        old = os.environ.get("DIFF_DIFF_BACKEND")
        try:
            if env is None: os.environ.pop("DIFF_DIFF_BACKEND", None)
            else: os.environ["DIFF_DIFF_BACKEND"] = env
            sys.modules[EXT] = module            # None makes the import fail
            self.dd = importlib.import_module("diff_diff")
            self.mods = [importlib.import_module(n) for n in also]
        finally:
            if old is None: os.environ.pop("DIFF_DIFF_BACKEND", None)
            else: os.environ["DIFF_DIFF_BACKEND"] = old
        self.held = {n: sys.modules[n] for n in ours(self.also)}

    def on(self):
        for n in ours(self.also):
            del sys.modules[n]
        sys.modules.update(self.held)
        return self
