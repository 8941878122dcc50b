import random
import numpy as np
import pandas as pd
from diff_diff import utils
import vh
from du import *

SPEC = "P19_ParallelTrends"
RULE = ("slope, distribution and equivalence comparisons of pre-treatment outcomes on random panels (balanced or not, any row order, labelled in several ways, with missing "
        "outcomes); non-trivial when both groups had enough pre-treatment data")


def nontrivial(ev):
    return ev["raised"] == "" and not ev["res"].get("error")


def cost(c):
    return 3 if c["kind"] == "robust" else 1


def cases(tier, rng, scen=None):
    q = tier == "quick"
    for i in range(320 if q else 4000):
        r = random.Random("P19/%d/%s" % (i, rng.random()))
        kind = r.choice(["trend", "robust", "robust", "tost", "tost"])
        nu, npd = r.randint(2, 6), r.randint(2, 7)
        tr = [1, 0] + [r.randint(0, 1) for _ in range(nu - 2)]
        r.shuffle(tr)
        cells = [(u, t) for u in range(nu) for t in range(npd)]
        if r.random() < 0.35:
            cells = [x for x in cells if r.random() < 0.8]
        if r.random() < 0.5:
            r.shuffle(cells)
        if not cells:
            continue
        flat = r.random()
        slope = [0.0, dy(r, -2, 2), dy(r, -1, 1)][r.randrange(3)]
        if kind == "trend" and r.random() < 0.2:
            npd = 4
            cells = [(u, t) for u in range(2) for t in range(4)]
        y = [(0.1 if flat < 0.04 else 0.25) * t + tr[u] * slope * t + (0 if flat < 0.12 else dy(r, -3, 3)) * (tr[u] if flat < 0.2 else 1) for u, t in cells]
        if r.random() < 0.4:              # outcomes that are not binary fractions
            y = [v / 5 for v in y]
        yield {"id": "c%d" % i, "kind": kind, "cells": cells, "tr": tr, "y": y, "pre": sorted(r.sample(range(npd), r.randint(1, npd)), key=lambda v: r.random()) if r.random() < 0.6 else None,
               "byunit": r.random() < 0.65, "b": r.choice([1, 20, 100, 300]), "seed": r.randint(0, 99), "threshold": r.choice([0.2, 0.2, 0.5, 0.05]),
               "margin": r.choice([None, None, 0.25, 1.0, 4.0]), "step": r.choice([1, 1, 2, 10]), "ulab": r.choice(["int", "str", "rev"]), "dcast": r.choice(["int", "float", "bool"]),
               "miss": r.randrange(len(cells)) if r.random() < 0.1 and kind != "trend" else None}


def tri(x):
    return "undetermined" if x is None else "yes" if bool(x) else "no"


def record(c):
    cells = c["cells"]
    lab = {"int": lambda u: u, "str": lambda u: "u%s" % "fbdace"[u], "rev": lambda u: 40 - u}[c["ulab"]]
    per = [100 + c["step"] * t for _, t in cells]
    y = list(c["y"])
    byunit = c["byunit"] or c["miss"] is not None
    if c["miss"] is not None:
        y[c["miss"]] = float("nan")
    d = [c["tr"][u] for u, _ in cells]
    cast = {"int": int, "float": float, "bool": bool}[c["dcast"]]
    df = pd.DataFrame({"out": y, "time": per, "grp": [cast(v) for v in d], "id": [lab(u) for u, _ in cells]})
    pre = None if c["pre"] is None else [100 + c["step"] * t for t in c["pre"]]
    ev = {"kind": c["kind"], "y": fls(y), "per": per, "d": d, "unit": [u for u, _ in cells], "givenpre": pre is not None, "pre": pre or [], "byunit": byunit, "b": c["b"],
          "threshold": fl(c["threshold"]), "givenmargin": c["margin"] is not None, "margin": fl(c["margin"]), "again": True, "res": {},
          "dyadic": all(v != v or v * 64 == int(v * 64) for v in y)}
    q = Quiet()
    kw = {"pre_periods": pre}
    if c["kind"] == "trend":
        r = q(utils.check_parallel_trends, df, "out", "time", "grp", **kw)
        if r is not None:
            ev["res"] = {"ts": fl(r["treated_trend"]), "cs": fl(r["control_trend"]), "tse": fl(r["treated_trend_se"]), "cse": fl(r["control_trend_se"]), "diff": fl(r["trend_difference"]),
                         "se": fl(r["trend_difference_se"]), "t": fl(r["t_statistic"]), "p": fl(r["p_value"]), "plausible": tri(r["parallel_trends_plausible"])}
    elif c["kind"] == "robust":
        a = dict(unit="id" if byunit else None, n_permutations=c["b"], seed=c["seed"], wasserstein_threshold=c["threshold"], **kw)
        r = q(utils.check_parallel_trends_robust, df, "out", "time", "grp", **a)
        r2 = Quiet()(utils.check_parallel_trends_robust, df, "out", "time", "grp", **a)
        if r is not None:
            ev["again"] = {k: repr(v) for k, v in r.items()} == {k: repr(v) for k, v in r2.items()}
            ev["res"] = {"w": fl(r["wasserstein_distance"]), "wn": fl(r.get("wasserstein_normalized")), "wp": fl(r["wasserstein_p_value"]), "ks": fl(r["ks_statistic"]), "ksp": fl(r["ks_p_value"]),
                         "mean": fl(r["mean_difference"]), "vr": fl(r["variance_ratio"]), "tch": fls(r["treated_changes"]), "cch": fls(r["control_changes"]),
                         "nt": int(r.get("n_treated", -1)), "nc": int(r.get("n_control", -1)), "plausible": tri(r["parallel_trends_plausible"]), "error": bool(r.get("error"))}
    else:
        r = q(utils.equivalence_test_trends, df, "out", "time", "grp", unit="id" if byunit else None, equivalence_margin=c["margin"], **kw)
        if r is not None:
            ev["res"] = {"mean": fl(r["mean_difference"]), "se": fl(r["se_difference"]), "margin": fl(r["equivalence_margin"]), "df": fl(r["degrees_of_freedom"]), "tl": fl(r["lower_t_stat"]),
                         "tu": fl(r["upper_t_stat"]), "pl": fl(r["lower_p_value"]), "pu": fl(r["upper_p_value"]), "p": fl(r["tost_p_value"]), "eq": tri(r["equivalent"]), "error": bool(r.get("error"))}
    ev["raised"], ev["msg"] = q.raised, q.raised + ": " + q.msg[:80]
    return [ev]
