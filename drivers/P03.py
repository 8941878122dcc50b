import random
import numpy as np
import pandas as pd
from diff_diff import TwoWayFixedEffects
import vh
from du import *

SPEC = "P03_TwoWay"
RULE = ("two-way fixed effects fits on every 3-unit 3-period skeleton (sampled in quick) enumerated by TLC and on random balanced and "
        "unbalanced panels with covariates and clusters; non-trivial when a fit was returned")


def nontrivial(ev):
    return ev["raised"] == ""


def generate(tier, work):
    return [vh.generate("GenPanel", "GenPanel_3x3.cfg", work)]


def cases(tier, rng, scen):
    sk = scen["GenPanel"]
    for i, s in enumerate(rng.sample(sk, min(len(sk), 120 if tier == "quick" else 10 ** 6))):
        r = random.Random("P03s%d" % i)
        rows = [(u, t - 1, c["cls"]) for u, c in enumerate(s) for t in c["at"]]
        cut = r.choice([1, 2])
        yield mk("skel%d" % i, r, [(u, t, d, int(t >= cut)) for u, t, d in rows], 0, False)
    for i in range(130 if tier == "quick" else 1500):
        r = random.Random("P03r%s/%d" % (rng.random(), i))
        nu, nt = r.randint(4, 6), r.randint(2, 4)
        cut = r.randint(1, nt - 1)
        stag = r.random() < 0.25
        when = [r.choice([None, cut, cut]) for _ in range(nu)] if not stag else [r.choice([None] + list(range(1, nt))) for _ in range(nu)]
        rows = []
        for u in range(nu):
            for t in range(nt):
                if stag:
                    d = int(when[u] is not None and t >= when[u])   # absorbing-state indicator
                else:
                    d = int(when[u] is not None)
                rows.append((u, t, d, int(t >= cut)))
        if r.random() < 0.5:
            rows = [x for x in rows if r.random() < 0.85]
        if r.random() < 0.4:
            r.shuffle(rows)
        yield mk("rand%d" % i, r, rows, r.choice([0, 0, 1, 2]), r.random() < 0.3)
    r = random.Random("P03kf")
    rows = [(u, t, int(u < 2), int(t >= 2)) for u in range(5) for t in range(4)]
    c = mk("kf_regressor_not_demeaned", r, rows, 0, False)
    c.update(claim=True, timecol="post", cluster=None)
    yield c


def mk(cid, r, rows, ncov, useper):
    return {"id": cid, "unit": [x[0] for x in rows], "per": [x[1] for x in rows], "d": [x[2] for x in rows], "post": [x[3] for x in rows],
            "y": [dy(r) for _ in rows], "x": [[dy(r, -3, 3, 2) for _ in rows] for _ in range(ncov)], "alpha": r.choice([0.05, 0.1]),
            "timecol": r.choice(["post", "post", "per"]), "cluster": r.choice([None, None, "grp"]), "labels": r.choice(["int", "str", "neg"]), "claim": False}


def record(c):
    lab = {"int": lambda u: u, "str": lambda u: "unit %d" % ((u * 5) % 7), "neg": lambda u: -10 * u}[c["labels"]]
    df = pd.DataFrame({"id": [lab(u) for u in c["unit"]], "per": c["per"], "post": c["post"], "D": c["d"], "y": c["y"], "grp": [u % 3 for u in c["unit"]]})
    xs = []
    for k, col in enumerate(c["x"]):
        df["x%d" % k] = col
        xs.append("x%d" % k)
    tcol = c["per"] if c["timecol"] == "per" else c["post"]
    g = [u % 3 for u in c["unit"]] if c["cluster"] else c["unit"]
    if len(set(g)) < 2 or len(set(tcol)) < 2:
        return []
    q = Quiet()
    est = TwoWayFixedEffects(cluster=c["cluster"], alpha=c["alpha"], rank_deficient_action="silent")
    r = q(est.fit, df, outcome="y", treatment="D", time=c["timecol"], unit="id", covariates=xs or None)
    if r is None and ("Fewer observations" in q.msg or len(c["y"]) <= 2 + len(xs)):
        return []
    ev = {"y": fls(c["y"]), "d": fls(c["d"]), "t": fls(tcol), "unit": c["unit"], "per": tcol, "cov": [fls(x) for x in c["x"]], "g": g,
          "alpha": fl(c["alpha"]), "raised": q.raised, "msg": q.raised + ": " + q.msg[:80], "claim": c["claim"],
          "staggered": any("taggered" in m for _, m in q.warnings)}
    if r is not None:
        lo, hi = ci(r.conf_int)
        ev["res"] = {"att": fl(r.att), "se": fl(r.se), "t": fl(r.t_stat), "p": fl(r.p_value), "lo": lo, "hi": hi, "nobs": fl(r.n_obs),
                     "ntr": fl(r.n_treated), "nco": fl(r.n_control), "r2": fl(r.r_squared), "resid": fls(r.residuals), "catt": fl(r.coefficients["ATT"])}
    return [ev]
