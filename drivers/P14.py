import random
import numpy as np
import pandas as pd
from diff_diff import TROP
from du import *

SPEC = "P14_Trop"
RULE = ("TROP fits (two-step and joint) on random panels of 3-5 units and 3-6 periods with missing cells, staggered adoption, grids including infinite penalties; "
        "bootstraps whose resamples are enumerated, leave-one-unit-out variances, low-rank fits checked for optimality, unusable panels")
INF = float("inf")
CASE_TIMEOUT = 120


def nontrivial(ev):
    return ev["kind"] != "fit" or ev["raised"] == ""


def cost(c):
    return {"search": 6, "boot": 4, "low": 5}.get(c["mode"], 1)


def cases(tier, rng):
    q = tier == "quick"
    for mode, n in (("fit", 90 if q else 900), ("search", 24 if q else 160), ("boot", 16 if q else 120), ("jack", 20 if q else 150), ("low", 24 if q else 160), ("bad", 30 if q else 200)):
        for i in range(n):
            r = random.Random("P14%s%s/%d" % (mode, rng.random(), i))
            yield mk("%s%d" % (mode, i), r, mode)
    for k, v in (("method", "threestep"), ("variance_method", "delta"), ("method", None), ("variance_method", "")):
        yield {"id": "args_%s_%s" % (k, v), "mode": "args", "k": k, "v": v}


def mk(cid, r, mode):
    method = r.choice(["twostep", "twostep", "joint"])
    T = r.randint(3, 5)
    ntr, nco = r.randint(1, 2), r.randint(1, 3)
    if mode == "boot":
        T, (ntr, nco) = r.randint(3, 4), r.choice([(1, 2), (2, 2), (1, 3)])
    if mode == "jack":
        ntr, nco = r.randint(1, 3), r.randint(1, 2)
    if mode == "search":
        T, ntr, nco = r.randint(3, 4), 1, r.randint(2, 3)
    n = ntr + nco
    units = list(range(n))
    tr = sorted(r.sample(units, ntr))
    first = r.randint(2, T - 1)
    stag = method == "twostep" and r.random() < 0.5
    start = {i: (r.randint(2, T - 1) if stag else first) for i in tr}
    if mode == "low":
        T, start = max(T, 4), None
        tr = [r.randrange(n)]
        start = {tr[0]: T - 1}
    D = [[int(i in start and t >= start[i]) for i in units] for t in range(T)]
    seen = [[True] * n for _ in range(T)]
    if mode in ("fit", "jack", "low") and r.random() < 0.4:
        for _ in range(r.randint(1, 2)):
            t, i = r.randrange(T), r.randrange(n)
            if not (mode == "low" and D[t][i]):
                seen[t][i] = False
    sc = r.choice([1, 2, 4])
    lam = [0.0, 0.25, 0.5, 1.0, INF]
    one = lambda: [r.choice(lam)]
    gt, gu, gn = one(), one(), [INF]
    if mode == "search":
        gt, gu = r.sample([0.0, 0.25, 0.5, 1.0], r.randint(1, 3)), r.sample([0.0, 0.25, 0.5, 1.0], r.randint(1, 3))
    if mode == "low":
        gn = [r.choice([0.125, 0.5, 1.0, 4.0, 30.0])]
        gt = [r.choice([0.0, 0.0, 0.25])]
        gu = [r.choice([0.0, 0.0, 0.25])]
    if mode == "fit" and r.random() < 0.3:
        gn = [r.choice([0.5, 2.0, INF])]
    rows = [(i, t) for i in units for t in range(T) if seen[t][i]]
    r.shuffle(rows)
    c = {"id": cid, "mode": mode, "method": method, "T": T, "n": n, "D": D, "seen": seen, "rows": rows, "Y": [[dy(r, -sc, sc) for _ in units] for _ in range(T)],
         "gt": gt, "gu": gu, "gn": gn, "vm": {"boot": "bootstrap", "jack": "jackknife"}.get(mode, r.choice(["bootstrap", "jackknife"])),
         "B": 60 if mode == "boot" else 4, "alpha": r.choice([0.05, 0.1]), "seed": r.randint(0, 10 ** 6), "lab": r.choice(["int", "str", "neg"]), "plab": r.choice([0, 1990, -3]), "bad": ""}
    if mode == "bad":
        c["bad"] = r.choice(["pulse", "gap", "none", "nocontrol", "early", "stagjoint"])
    return c


def record(c):
    if c["mode"] == "args":
        q = Quiet()
        q(lambda: TROP(**{c["k"]: c["v"]}))
        return [{"kind": "args", "raised": q.raised}]
    lab = {"int": lambda u: 5 * u + 3, "str": lambda u: "u%d" % (10 + u), "neg": lambda u: 2 * u - 9}[c["lab"]]
    T, n = c["T"], c["n"]
    D = [list(x) for x in c["D"]]
    seen = [list(x) for x in c["seen"]]
    rows = list(c["rows"])
    method = c["method"]
    if c["bad"] == "pulse":
        i = [i for i in range(n) if any(D[t][i] for t in range(T))][0]
        for t in range(T):
            D[t][i] = int(t == T - 2)
    if c["bad"] == "gap":
        i = [i for i in range(n) if any(D[t][i] for t in range(T))][0]
        for t in range(T):
            D[t][i] = int(t == T - 3)
        seen[T - 2][i] = False
    if c["bad"] == "none":
        D = [[0] * n for _ in range(T)]
    if c["bad"] == "nocontrol":
        D = [[int(t >= 2)] * n for t in range(T)]
    if c["bad"] == "early":
        D = [[int(D[T - 1][i] and t >= 1) for i in range(n)] for t in range(T)]
    if c["bad"] == "stagjoint":
        method = "joint"
        ctl = [i for i in range(n) if not D[T - 1][i]]
        if len(ctl) > 1:
            D = [[int(t == T - 1) if i == ctl[0] and D[T - 2][[j for j in range(n) if D[T - 1][j]][0]] else D[t][i] for i in range(n)] for t in range(T)]
    rows = [(i, t) for (i, t) in rows if seen[t][i]]
    units = sorted({i for i, _ in rows})
    pers = sorted({t for _, t in rows})
    df = pd.DataFrame({"id": [lab(i) for i, _ in rows], "t": [t + c["plab"] for _, t in rows], "D": [D[t][i] for i, t in rows], "y": [c["Y"][t][i] for i, t in rows]})

    low = not all(np.isinf(c["gn"]))

    def run(seed, q):
        est = TROP(method=method, lambda_time_grid=c["gt"], lambda_unit_grid=c["gu"], lambda_nn_grid=c["gn"], max_iter=3000, tol=1e-12, alpha=c["alpha"],
                   variance_method=c["vm"], n_bootstrap=c["B"], seed=seed, max_loocv_samples=3 if low else 100)
        return q(est.fit, df, "y", "D", "id", "t")
    q = Quiet()
    r = run(c["seed"], q)
    nan = float("nan")
    ev = {"kind": "fit", "method": method, "Y": [[fl(c["Y"][t][i]) if seen[t][i] else nan for i in units] for t in pers],
          "D": [[D[t][i] if seen[t][i] else 0 for i in units] for t in pers], "seen": [[seen[t][i] for i in units] for t in pers], "nrows": len(rows),
          "gt": fls(c["gt"]), "gu": fls(c["gu"]), "gn": fls(c["gn"]), "alpha": fl(c["alpha"]), "vm": c["vm"], "B": c["B"], "enum": c["mode"] == "boot",
          "ntrcells": sum(D[t][i] for i in units for t in pers if seen[t][i]), "raised": q.raised, "msg": q.raised + ": " + q.msg[:100], "res": "null"}
    if r is None:
        return [ev]
    lo, hi = ci(r.conf_int)
    U = {lab(i): k + 1 for k, i in enumerate(units)}
    P = {t + c["plab"]: k + 1 for k, t in enumerate(pers)}
    ev["res"] = {"att": fl(r.att), "se": fl(r.se), "tst": fl(r.t_stat), "p": fl(r.p_value), "lo": lo, "hi": hi, "nobs": int(r.n_obs), "ntr": int(r.n_treated), "nco": int(r.n_control),
                 "ntc": int(r.n_treated_obs), "npre": int(r.n_pre_periods), "npost": int(r.n_post_periods), "lt": fl(r.lambda_time), "lu": fl(r.lambda_unit), "ln": fl(r.lambda_nn),
                 "score": fl(r.loocv_score), "cells": [[P[t], U[u]] for (u, t) in r.treatment_effects], "taus": fls(list(r.treatment_effects.values())),
                 "ue": [fl(r.unit_effects[lab(i)]) for i in units], "te": [fl(r.time_effects[t + c["plab"]]) for t in pers], "L": mat(r.factor_matrix),
                 "draws": [] if r.bootstrap_distribution is None else fls(r.bootstrap_distribution), "vm": r.variance_method, "nb": r.n_bootstrap}
    out = [ev]
    if c["mode"] == "boot":
        z = [run(c["seed"], Quiet()), run(c["seed"] + 1, Quiet())]
        h = [[float(v).hex() for v in (o.bootstrap_distribution if o is not None and o.bootstrap_distribution is not None else [])] for o in [r] + z]
        if len(set(h[0])) > 3 and len(h[0]) > 20:
            out.append({"kind": "repeat", "a": h[0], "b": h[1], "c": h[2]})
    return out
