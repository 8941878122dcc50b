import random
import numpy as np
import pandas as pd
from diff_diff import TripleDifference, triple_difference
from du import *

SPEC = "P13_TripleDifference"
RULE = ("triple-difference fits by regression, weighting and doubly robust methods on samples filling the eight cells unevenly, with covariates, clusters, trimming and bad input")
NAMES = ["%s, %s, %s" % (a, b, t) for a in ("Treated", "Control") for b in ("Eligible", "Ineligible") for t in ("Post", "Pre")]


def nontrivial(ev):
    return ev["raised"] == ""


def cases(tier, rng):
    q = tier == "quick"
    for i in range(180 if q else 2000):
        r = random.Random("P13n%s/%d" % (rng.random(), i))
        yield mk("plain%d" % i, r, 0, 1, 4)
    for i in range(120 if q else 1200):
        r = random.Random("P13c%s/%d" % (rng.random(), i))
        yield mk("cov%d" % i, r, r.choice([1, 1, 2]), 3, 6)
    for i in range(8):
        r = random.Random("P13s%d" % i)
        yield dict(mk("saturated%d" % i, r, 0, 1, 1), method="reg")
    for i in range(40 if q else 300):
        r = random.Random("P13x%s/%d" % (rng.random(), i))
        c = mk("bad%d" % i, r, r.choice([0, 1]), 1, 3)
        c["bad"] = r.choice(["cell", "cell", "value", "constant", "nan_y", "nan_g", "column", "nan_x"])
        if c["bad"] == "nan_x" and not c["x"]:
            c["bad"] = "cell"
        yield c


def mk(cid, r, ncov, lo, hi):
    rows = [(g, p, t) for g in (0, 1) for p in (0, 1) for t in (0, 1) for _ in range(r.randint(lo, hi))]
    r.shuffle(rows)
    n = len(rows)
    loc = r.choice([0, 0, 50])
    x = [[dy(r, -2, 2, 4) for _ in rows] for _ in range(ncov)]
    if ncov and r.random() < 0.15:
        x.append([2 * v for v in x[0]]) if r.random() < 0.5 else x.append([1.0] * n)
    y = [loc + dy(r) for _ in rows]
    if ncov and r.random() < 0.5:         # an outcome that really depends on the covariate, differently in each cell
        b = {k: dy(r, -3, 3) for k in set(rows)}
        y = [b[k] * x[0][i] + (y[i] if r.random() < 0.5 else 0) for i, k in enumerate(rows)]
    return {"id": cid, "rows": rows, "y": y, "x": x, "method": r.choice(["dr", "ipw", "reg"]), "robust": r.random() < 0.7, "cl": [r.randint(0, 4) for _ in rows] if r.random() < 0.3 else None,
            "alpha": r.choice([0.05, 0.1, 0.01]), "trim": r.choice([0.01, 0.01, 0.1, 0.25]), "rd": r.choice(["warn", "silent", "silent", "error"]), "dt": r.choice(["int", "float", "bool"]), "bad": "", "k": r.randint(0, 10 ** 6)}


def record(c):
    rows, bad = list(c["rows"]), c["bad"]
    k = c["k"]
    df = pd.DataFrame({"y": c["y"], "G": [a for a, _, _ in rows], "P": [b for _, b, _ in rows], "T": [t for _, _, t in rows]})
    for j, col in enumerate(c["x"]):
        df["x%d" % j] = col
    if c["cl"]:
        df["cl"] = ["c%d" % v for v in c["cl"]]
        if len(set(c["cl"])) < 2:
            return []
    df[["G", "P", "T"]] = df[["G", "P", "T"]].astype(c["dt"])
    xs = ["x%d" % j for j in range(len(c["x"]))]
    if bad == "cell":
        cell = rows[k % len(rows)]
        df = df[[r != cell for r in rows]]
    elif bad == "value":
        df["GPT"[k % 3]] = df["GPT"[k % 3]].astype(float)
        df.loc[0, "GPT"[k % 3]] = 2
    elif bad == "constant":
        df = df[df["GPT"[k % 3]] == 1]
    elif bad == "nan_y":
        df.loc[k % len(df), "y"] = np.nan
    elif bad == "nan_g":
        v = "GPT"[k % 3]
        df[v] = df[v].astype(float)
        df.loc[k % len(df), v] = np.nan
    elif bad == "column":
        df = df.drop(columns=["y", "G", "P", "T"][k % 4])
    elif bad == "nan_x":
        df.loc[k % len(df), "x0"] = np.nan
    q = Quiet()
    kw = dict(outcome="y", group="G", partition="P", time="T", covariates=xs or None)
    est = TripleDifference(estimation_method=c["method"], robust=c["robust"], cluster="cl" if c["cl"] else None, alpha=c["alpha"], pscore_trim=c["trim"], rank_deficient_action=c["rd"])
    r = q(est.fit, df, **kw)
    ev = {"y": fls(c["y"]), "G": [a for a, _, _ in rows], "P": [b for _, b, _ in rows], "T": [t for _, _, t in rows], "cov": [fls(v) for v in c["x"]], "method": c["method"],
          "robust": c["robust"], "clustered": bool(c["cl"]), "g": c["cl"] or [0] * len(rows), "alpha": fl(c["alpha"]), "trim": fl(c["trim"]), "bad": bad, "raised": q.raised,
          "msg": q.raised + ": " + q.msg[:100], "deficient_error": c["rd"] == "error" and "rank" in q.msg.lower(), "same": True, "res": "null"}
    if r is None:
        return [ev]
    if c["trim"] == 0.01:
        r2 = Quiet()(triple_difference, df, estimation_method=c["method"], robust=c["robust"], cluster="cl" if c["cl"] else None, alpha=c["alpha"], rank_deficient_action=c["rd"], **kw)
        h = lambda z: [float(v).hex() for v in (z.att, z.se, z.t_stat, z.p_value, *z.conf_int)]
        ev["same"] = h(r) == h(r2)
    lo, hi = ci(r.conf_int)
    ps = r.pscore_stats or {}
    ev["res"] = {"att": fl(r.att), "se": fl(r.se), "tst": fl(r.t_stat), "p": fl(r.p_value), "lo": lo, "hi": hi, "nobs": int(r.n_obs), "n11": int(r.n_treated_eligible),
                 "n10": int(r.n_treated_ineligible), "n01": int(r.n_control_eligible), "n00": int(r.n_control_ineligible), "ncl": r.n_clusters,
                 "means": [fl(r.group_means.get(n)) for n in NAMES], "r2": fl(r.r_squared), "ps": [fl(ps.get(n)) for n in ("P(G=1) mean", "P(G=1) std", "P(P=1) mean", "P(P=1) std")]}
    return [ev]
