import random
import numpy as np
from diff_diff.linalg import solve_ols, LinearRegression
import vh
from du import *

SPEC = "P01_LeastSquares"
LEVEL = "exploration"
RULE = ("least-squares problems through solve_ols and LinearRegression: every {0,1} design with 3 columns and 5 rows up to row order "
        "(enumerated by TLC), and random integer designs with constructed linear dependencies, clusters and outcomes; non-trivial when the call returned a fit")
ASSUMPTIONS = ["designs are well conditioned apart from exact dependencies; sizes up to 14 x 6"]


def nontrivial(ev):
    return ev.get("kind") != "bad"


def generate(tier, work):
    return [vh.generate("GenDesigns", "GenDesigns.cfg", work)]


def cases(tier, rng, scen):
    for i, s in enumerate(scen["GenDesigns"]):
        r = random.Random("P01e%d" % i)
        # an enumerated design, outcome chosen at random
        yield {"id": "enum%d" % i, "X": [[float(v) for v in row] for row in s], "y": [dy(r) for _ in s],
               "g": [r.choice("abc") for _ in s], "vk": "hc1", "action": "silent", "mode": "ols"}
    n_rand = 260 if tier == "quick" else 2500
    for i in range(n_rand):
        r = random.Random("P01r%s/%d" % (rng.random(), i))
        k = r.randint(1, 5)
        n = k + r.randint(1, 8)
        X = [[float(r.randint(-4, 4)) for _ in range(k)] for _ in range(n)]
        dep = r.random()
        if dep < 0.45 and k >= 2:               # make some column a combination of the others
            for _ in range(r.choice([1, 1, 2])):
                j = r.randrange(k)
                a, b = r.randrange(k), r.randrange(k)
                ca, cb = r.choice([0, 1, -1, 2]), r.choice([0, 1, 1, 3])
                for row in X:
                    row[j] = ca * row[a] * (a != j) + cb * row[b] * (b != j)
        if not any(any(row) for row in X):
            X[0][0] = 1.0
        scale = r.choice([1.0] * 5 + [2.0 ** 24, 2.0 ** -12])
        js = r.randrange(k)
        for row in X:
            row[js] *= scale
        ng = r.randint(2, 5)
        labels = r.choice([["a", "b", "c", "d", "e"], [10, 3, 7, 900, 5], ["z9", "y", "x", "10", "2"]])[:ng]
        g = [labels[i % ng] for i in range(n)]
        r.shuffle(g)
        mode = r.choice(["ols", "lr", "lr"])
        yield {"id": "rand%d" % i, "X": X, "y": [dy(r) for _ in range(n)], "g": g, "vk": r.choice(["hc1", "cluster", "cluster"] + (["hom"] if mode == "lr" else [])),
               "action": r.choice(["silent", "silent", "warn", "error"]), "mode": mode, "icpt": r.random() < 0.5,
               "dfadj": r.choice([0, 0, 1, 2]), "alpha": r.choice([0.05, 0.1, 0.01]), "ask_alpha": r.choice([None, None, 0.2]), "ask_df": r.choice([None, None, 3, 50]), "where": r.choice(["fit", "init"])}
    for what in ["nan_X", "inf_X", "nan_y", "inf_y", "short_y", "wide", "one_cluster", "X_1d", "y_2d", "action"]:
        yield {"id": "bad_" + what, "bad": what}


def bad(what):
    rng = np.random.RandomState(3)
    X, y, kw = rng.normal(size=(8, 3)), rng.normal(size=8), {}
    if what == "nan_X": X[2, 1] = np.nan
    if what == "inf_X": X[2, 1] = np.inf
    if what == "nan_y": y[4] = np.nan
    if what == "inf_y": y[4] = -np.inf
    if what == "short_y": y = y[:-1]
    if what == "wide": X, y = rng.normal(size=(2, 3)), y[:2]
    if what == "one_cluster": kw = {"cluster_ids": np.ones(8)}
    if what == "X_1d": X = X[:, 0]
    if what == "y_2d": y = y[:, None]
    if what == "action": kw = {"rank_deficient_action": "ignore"}
    q = Quiet()
    q(solve_ols, X, y, **kw)
    return [{"kind": "bad", "what": what, "raised": q.raised}]


def record(c):
    if "bad" in c:
        return bad(c["bad"])
    X, y = np.array(c["X"]), np.array(c["y"])
    t = random.Random(str(c["y"]))       # the same numbers stored otherwise
    if X.size and t.random() < 0.4 and (X == np.round(X)).all() and abs(X).max() < 120: X = X.astype(t.choice(["int8", "int16", "int64", "float32"] + (["uint8", "bool"] if set(X.ravel()) <= {0.0, 1.0} else [])))
    if y.size and t.random() < 0.4 and (y == np.round(y)).all() and abs(y).max() < 120: y = y.astype(t.choice(["int8", "int16", "int64", "float32"]))
    q = Quiet()
    if c["mode"] == "ols":
        cl = np.array(c["g"]) if c["vk"] == "cluster" else None
        out = q(solve_ols, X, y, cluster_ids=cl, return_fitted=True, rank_deficient_action=c["action"])
        ev = {"kind": "ols", "X": mat(X), "y": fls(y), "g": c["g"], "vkind": c["vk"], "action": c["action"], "raised": q.raised,
              "warned": any("ank" in m for _, m in q.warnings)}
        if out is not None:
            b, u, f, V = out
            ev.update(coef=fls(b), resid=fls(u), fitted=fls(f), vcov=mat(V))
            # the same fit without the extras
            q2 = Quiet()
            o2 = q2(solve_ols, X, y, cluster_ids=cl, return_vcov=False, rank_deficient_action="silent")
        return [ev]
    if c["icpt"] and c["X"] and len(y) <= X.shape[1] + 1:
        c = dict(c, icpt=False)
    gl = np.array(c["g"]) if c["vk"] == "cluster" else None
    lr = LinearRegression(include_intercept=c["icpt"], robust=c["vk"] != "hom", alpha=c["alpha"], rank_deficient_action=c["action"],
                          cluster_ids=gl if c["where"] == "init" else None)
    q(lr.fit, X, y, df_adjustment=c["dfadj"], **({"cluster_ids": gl} if c["where"] == "fit" and gl is not None else {}))
    Xf = np.column_stack([np.ones(len(y)), X]) if c["icpt"] else X
    ev = {"kind": "lr", "X": mat(Xf), "y": fls(y), "g": c["g"], "vkind": c["vk"], "action": c["action"], "raised": q.raised,
          "warned": any("ank" in m for _, m in q.warnings)}
    if q.raised:
        return [ev]
    qi = Quiet()
    k = len(lr.coefficients_)
    inf = qi(lambda: [lr.get_inference(j, alpha=c["ask_alpha"], df=c["ask_df"]) for j in range(k)])
    allinf = qi(lambda: lr.get_all_inference(alpha=c["ask_alpha"], df=c["ask_df"]))
    px = np.arange(1.0, 1.0 + 2 * X.shape[1]).reshape(2, -1) / 2
    pred = qi(lr.predict, px)
    pxf = np.column_stack([np.ones(2), px]) if c["icpt"] else px
    def one(r, j):
        lo, hi = ci(r.conf_int)
        return {"coef": fl(r.coefficient), "se": fl(r.se), "t": fl(r.t_stat), "p": fl(r.p_value), "lo": lo, "hi": hi, "sig": bool(r.is_significant())}
    src = inf if (len(y) % 2) else allinf
    ev.update(coef=fls(lr.coefficients_), resid=fls(lr.residuals_), fitted=fls(lr.fitted_values_), vcov=mat(lr.vcov_), df=fl(lr.df_),
              nobs=fl(lr.n_obs_), keff=fl(lr.n_params_effective_), r2=fl(lr.r_squared()), r2adj=fl(lr.r_squared(adjusted=True)),
              alpha=fl(c["ask_alpha"] if c["ask_alpha"] is not None else c["alpha"]), dfarg=c["ask_df"], dfadj=c["dfadj"],
              inf=[one(r, j) for j, r in enumerate(src)], px=mat(pxf), pred=fls(pred))
    return [ev]
