import random
import numpy as np
import pandas as pd
from diff_diff import DifferenceInDifferences, TwoWayFixedEffects
from diff_diff.utils import wild_bootstrap_se
import vh
from du import *

SPEC = "P06_WildBootstrap"
RULE = "wild cluster bootstrap runs on small regressions with 2-5 clusters (all multiplier assignments enumerated by the specification), all weight types and nulls; large runs for moments; estimator fits compared with the same bootstrap"


def cases(tier, rng):
    n = 60 if tier == "quick" else 600
    for i in range(n):
        r = random.Random("P06%s/%d" % (rng.random(), i))
        wt = r.choice(["rademacher", "rademacher", "mammen", "webb"])
        G = r.randint(2, 3) if wt == "webb" else r.randint(2, 6 if wt == "rademacher" else 5)
        k = r.choice([2, 3, 4])
        n_ = G * r.randint(2, 3) + k
        yield {"id": "draw%d" % i, "kind": "draws", "wt": wt, "G": G, "k": k, "n": n_, "B": r.choice([19, 49, 99]), "null": r.choice([0, 0, 0.5, -1]),
               "alpha": r.choice([0.05, 0.1, 0.2]), "seed": r.randint(0, 10 ** 6), "s": i, "eff": r.choice([0, 0, 2, 8])}
    for wt in ["rademacher", "mammen", "webb"]:
        for j in range(2 if tier == "quick" else 6):
            yield {"id": "mom_%s%d" % (wt, j), "kind": "moments", "wt": wt, "G": 7, "k": 2, "n": 18, "B": 3000, "null": 0, "alpha": 0.05, "seed": 11 + j, "s": 900 + j, "eff": 1}
    for i in range(24 if tier == "quick" else 200):
        r = random.Random("P06e%s/%d" % (rng.random(), i))
        yield {"id": "est%d" % i, "kind": "est", "wt": r.choice(["rademacher", "webb", "mammen"]), "B": r.choice([25, 60]), "alpha": r.choice([0.05, 0.1]),
               "seed": r.randint(0, 10 ** 6), "s": i, "est": r.choice(["did", "did", "didcov", "twfe"]), "nu": r.randint(3, 7), "eff": r.choice([0, 3])}
    for w in ["one_cluster", "weights"]:
        yield {"id": "bad_" + w, "kind": "bad", "what": w}


def problem(c):
    r = random.Random("P06d%d" % c["s"])
    n, k, G = c["n"], c["k"], c["G"]
    X = [[1.0] + [float(r.randint(-3, 3)) for _ in range(k - 1)] for _ in range(n)]
    g = [j % G for j in range(n)]
    r.shuffle(g)
    idx = r.randrange(1, k)
    y = [dy(r, -3, 3) + c["eff"] * row[idx] for row in X]
    lab = r.choice([lambda j: j, lambda j: "c%d" % (9 - j), lambda j: -3 * j])
    return np.array(X), np.array(y), [lab(j) for j in g], idx


def out(r):
    return {"p": fl(r.p_value), "se": fl(r.se), "lo": fl(r.ci_lower), "hi": fl(r.ci_upper), "t": fl(r.t_stat_original), "B": fl(r.n_bootstrap),
            "ncl": fl(r.n_clusters), "wt": r.weight_type}


def record(c):
    if c["kind"] == "bad":
        q = Quiet()
        X = np.column_stack([np.ones(6), np.arange(6.0) ** 2])
        kw = {"weight_type": "normal"} if c["what"] == "weights" else {}
        g = np.zeros(6) if c["what"] == "one_cluster" else np.array([0, 0, 1, 1, 2, 2])
        q(wild_bootstrap_se, X, np.arange(6.0), np.zeros(6), g, 1, n_bootstrap=5, seed=1, **kw)
        return [{"kind": "bad", "what": c["what"], "raised": q.raised}]
    if c["kind"] == "est":
        return est(c)
    X, y, g, idx = problem(c)
    if np.linalg.matrix_rank(X) < X.shape[1]:
        return []
    b = np.linalg.lstsq(X, y, rcond=None)[0]
    if np.abs(y - X @ b).max() < 1e-9:
        return []
    q = Quiet()
    r = q(wild_bootstrap_se, X, y, y - X @ b, np.array(g), idx, n_bootstrap=c["B"], weight_type=c["wt"], null_hypothesis=float(c["null"]), alpha=c["alpha"],
          seed=c["seed"], return_distribution=True)
    if r is None:
        raise RuntimeError("wild_bootstrap_se: " + q.raised + q.msg)
    ev = {"kind": c["kind"], "X": mat(X), "y": fls(y), "g": g, "idx": idx + 1, "null": fl(c["null"]), "wtype": c["wt"], "alpha": fl(c["alpha"]),
          "draws": fls(r.bootstrap_distribution), "Breq": c["B"], **out(r)}
    few = {"kind": "fewclusters", "warned": any("luster" in m and "unreliable" in m for _, m in q.warnings), "ncl": len(set(g))}
    return [ev, few]


def est(c):
    r = random.Random("P06est%d" % c["s"])
    nu, nt = c["nu"], 4
    rows = [(u, t, int(u % 2 == 0), int(t >= 2)) for u in range(nu) for t in range(nt)]
    df = pd.DataFrame(rows, columns=["unit", "per", "D", "post"])
    df["y"] = [dy(r, -4, 4) + c["eff"] * a * b for a, b in zip(df.D, df.post)]
    df["x"] = [dy(r, -2, 2) for _ in rows]
    kw = dict(inference="wild_bootstrap", cluster="unit", n_bootstrap=c["B"], bootstrap_weights=c["wt"], seed=c["seed"], alpha=c["alpha"], rank_deficient_action="silent")
    q = Quiet()
    if c["est"] == "twfe":
        e = TwoWayFixedEffects(**kw)
        f = lambda: e.fit(df, outcome="y", treatment="D", time="post", unit="unit")
        # the regression the estimator documents: outcome net of unit and period effects
        m = df.y - df.groupby("unit").y.transform("mean") - df.groupby("post").y.transform("mean") + df.y.mean()
        y, X, idx = m.to_numpy(), np.column_stack([np.ones(len(df)), df.D * df.post]), 1
    else:
        e = DifferenceInDifferences(**kw)
        cov = ["x"] if c["est"] == "didcov" else None
        f = lambda: e.fit(df, outcome="y", treatment="D", time="post", covariates=cov)
        y, X, idx = df.y.to_numpy(), np.column_stack([np.ones(len(df)), df.D, df.post, df.D * df.post] + ([df.x] if cov else [])), 3
    X = X.astype(float)
    r1 = q(f)
    if r1 is None:
        raise RuntimeError(q.raised + ": " + q.msg)
    b = np.linalg.lstsq(X, y, rcond=None)[0]
    w = q(wild_bootstrap_se, X, y, y - X @ b, df.unit.to_numpy(), idx, n_bootstrap=c["B"], weight_type=c["wt"], alpha=c["alpha"], seed=c["seed"])
    lo, hi = ci(r1.conf_int)
    ev = {"kind": "est", "X": mat(X), "y": fls(y), "g": [int(u) for u in df.unit], "idx": idx + 1, "null": 0.0, "wtype": c["wt"], "alpha": fl(c["alpha"]), **out(w),
          "e": {"att": fl(r1.att), "se": fl(r1.se), "p": fl(r1.p_value), "lo": lo, "hi": hi, "t": fl(r1.t_stat), "method": r1.inference_method,
                "B": fl(r1.n_bootstrap), "ncl": fl(r1.n_clusters)}}
    e.set_params(inference="analytical")
    r2 = q(f)
    return [ev, {"kind": "plain", "method": r2.inference_method, "B": r2.n_bootstrap, "ncl": r2.n_clusters}]
