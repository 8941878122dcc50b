"""Callaway-Sant'Anna cases shared by P07-P09"""
import random
import numpy as np
import pandas as pd
from diff_diff import CallawaySantAnna
from du import *


def from_skel(s, r, **k):
    """TLC skeleton [cls, at]: class 0 never treated, class c first treated in the c-th period"""
    return panel(r, [c["cls"] for c in s], [list(c["at"]) for c in s], max(max(c["at"]) for c in s), **k)


def panel(r, cls, at, nt, ncov=0, gaps=False, xmiss=False, trend=True):
    off = r.choice([0, 1, 1, 2000])
    pers = [off + t for t in range(1, nt + 1)]
    if gaps:
        for j in range(r.randint(1, nt - 1), nt):
            pers[j] += 1
        if r.random() < 0.5:                 # a long calendar of which few periods are in the panel
            j = r.randint(1, nt - 1)
            far = r.choice([12, 19, 20, 21, 30])
            pers = pers[:j] + [v + far for v in pers[j:]]
    coh = []
    for c in cls:
        coh.append(0 if c == 0 else (pers[c - 1] if c <= nt else pers[-1] + c - nt))
    if off == 0 and any(c == 0 and k != 0 for c, k in zip(coh, cls)):
        pers = [p + 1 for p in pers]
        coh = [0 if k == 0 else c + 1 for c, k in zip(coh, cls)]
    rows = [(u, t) for u, a in enumerate(at) for t in a]
    y = [dy(r) for _ in rows]
    x = [[dy(r, -2, 2, 2) for _ in range(ncov)] for _ in rows]
    if xmiss:
        for _ in range(max(1, len(rows) // 8)):
            x[r.randrange(len(rows))][r.randrange(ncov)] = None
    if r.random() < 0.5:
        z = list(zip(rows, y, x))
        r.shuffle(z)
        rows, y, x = [a[0] for a in z], [a[1] for a in z], [a[2] for a in z]
    return {"pers": pers, "coh": coh, "rows": rows, "y": y, "x": x, "ncov": ncov, "never": r.choice(["0", "0", "inf"]), "lab": r.choice(["int", "str", "neg"])}


def rand_panel(r, nu, nt, ncov=0, miss=0.0, maxlate=1, gaps=False, xmiss=False, never=2):
    cls = [0] * never + [r.randint(1, nt + maxlate) for _ in range(nu - never)]
    if r.random() < 0.1:
        cls = [r.randint(0, nt + maxlate) for _ in range(nu)]
    r.shuffle(cls)
    at = [[t for t in range(1, nt + 1) if r.random() >= miss] or [1] for _ in cls]
    return panel(r, cls, at, nt, ncov, gaps, xmiss)


def frame(p):
    lab = {"int": lambda u: u * 3 + 10, "str": lambda u: "u%02d" % (50 - u), "neg": lambda u: -u}[p["lab"]]
    df = pd.DataFrame({"id": [lab(u) for u, _ in p["rows"]], "t": [p["pers"][t - 1] for _, t in p["rows"]], "y": p["y"],
                       "g": [p["coh"][u] for u, _ in p["rows"]]})
    if p["never"] == "inf":
        df["g"] = [np.inf if v == 0 else float(v) for v in df["g"]]
    for k in range(p["ncov"]):
        df["x%d" % k] = [float("nan") if row[k] is None else row[k] for row in p["x"]]
    return df


def base_event(p):
    us = sorted({u for u, _ in p["rows"]})
    pers = sorted({p["pers"][t - 1] for _, t in p["rows"]})
    Y = [[float("nan")] * len(pers) for _ in us]
    X = [[[float("nan")] * p["ncov"] for _ in pers] for _ in us]
    for (u, t), y, x in zip(p["rows"], p["y"], p["x"]):
        i, j = us.index(u), pers.index(p["pers"][t - 1])
        Y[i][j] = fl(y)
        X[i][j] = [float("nan") if v is None else fl(v) for v in x]
    return {"periods": pers, "coh": [p["coh"][u] for u in us], "Y": Y, "X": X, "ncov": p["ncov"], "nrows": len(p["rows"])}


def gint(v):
    v = float(v)
    return int(v) if v == int(v) else v


def stat(d):
    lo, hi = ci(d["conf_int"])
    return {"eff": fl(d["effect"]), "se": fl(d["se"]), "tst": fl(d["t_stat"]), "p": fl(d["p_value"]), "lo": lo, "hi": hi}


def res(r):
    lo, hi = ci(r.overall_conf_int)
    lab = lambda v: gint(v) if np.isfinite(v) else 10 ** 8
    out = {"gt": [{"g": lab(g), "t": lab(t), "nt": int(d["n_treated"]), "nc": int(d["n_control"]), **stat(d)} for (g, t), d in r.group_time_effects.items()],
           "groups": [lab(g) for g in r.groups], "periods": [lab(t) for t in r.time_periods], "ntr": int(r.n_treated_units), "nco": int(r.n_control_units),
           "nobs": int(r.n_obs),
           "o": {"eff": fl(r.overall_att), "se": fl(r.overall_se), "tst": fl(r.overall_t_stat), "p": fl(r.overall_p_value), "lo": lo, "hi": hi},
           "hases": r.event_study_effects is not None, "hasgrp": r.group_effects is not None,
           "es": [] if r.event_study_effects is None else [{"e": lab(e), "n": int(d["n_groups"]), **stat(d)} for e, d in r.event_study_effects.items()],
           "grp": [] if r.group_effects is None else [{"g": lab(g), "n": int(d["n_periods"]), **stat(d)} for g, d in r.group_effects.items()]}
    return out


def fit(p, cfg, q, **kw):
    est = CallawaySantAnna(control_group=cfg["control"], anticipation=cfg["a"], estimation_method=cfg["method"], alpha=cfg["alpha"],
                           base_period=cfg["base"], rank_deficient_action="silent", **kw)
    df = frame(p)
    return q(est.fit, df, outcome="y", unit="id", time="t", first_treat="g", covariates=["x%d" % k for k in range(p["ncov"])] or None,
             aggregate=cfg.get("agg"), balance_e=cfg.get("bal"))


def config(r, **k):
    c = {"control": r.choice(["never_treated", "not_yet_treated"]), "a": r.choice([0, 0, 0, 1, 2]), "method": r.choice(["dr", "ipw", "reg"]),
         "base": r.choice(["varying", "universal"]), "alpha": r.choice([0.05, 0.1, 0.01])}
    c.update(k)
    return c
