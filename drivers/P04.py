import random
import numpy as np
import pandas as pd
from diff_diff import MultiPeriodDiD
import vh
from du import *

SPEC = "P04_EventStudy"
RULE = ("multi-period fits on every 3-unit 3-period skeleton enumerated by TLC (sampled in quick) and random panels with explicit/implicit post "
        "periods, reference periods, covariates, fixed effects, absorbed factors and clusters; non-trivial when a fit was returned")


def nontrivial(ev):
    return ev["raised"] == ""


def generate(tier, work):
    return [vh.generate("GenPanel", "GenPanel_3x3.cfg", work)]


def cases(tier, rng, scen):
    sk = scen["GenPanel"]
    for i, s in enumerate(rng.sample(sk, min(len(sk), 120 if tier == "quick" else 10 ** 6))):
        r = random.Random("P04s%d" % i)
        rows = [(u, t - 1, c["cls"]) for u, c in enumerate(s) for t in c["at"]]
        yield mk("skel%d" % i, r, rows, 3, 0, plain=True)
    for i in range(140 if tier == "quick" else 1500):
        r = random.Random("P04r%s/%d" % (rng.random(), i))
        nu, nt = r.randint(4, 6), r.randint(2, 5)
        tr = [1, 0, 1, 0] + [r.randint(0, 1) for _ in range(nu - 4)]
        rows = [(u, t, tr[u]) for u in range(nu) for t in range(nt)]
        if r.random() < 0.5:
            rows = [x for x in rows if r.random() < 0.88]
        if r.random() < 0.4:
            r.shuffle(rows)
        yield mk("rand%d" % i, r, rows, nt, r.choice([0, 0, 1, 2]))


def mk(cid, r, rows, nt, ncov, plain=False):
    off = r.choice([0, 0, 1, 2000, -2])
    per = [x[1] + off for x in rows]
    ps = sorted(set(per))
    post = None
    if r.random() < 0.7 and len(ps) > 1:
        cut = r.randint(1, len(ps) - 1)
        post = ps[cut:] if r.random() < 0.7 else sorted(r.sample(ps, r.randint(1, len(ps) - 1)))
        if r.random() < 0.04:
            post = post + [max(ps) + 7]
    ref = None
    if r.random() < 0.4:
        pre = [p for p in ps if p not in (post or [])]
        ref = r.choice(pre) if pre and post is not None else None
        if r.random() < 0.05:
            ref = max(ps) + 9
    fe, ab = [], []
    z = 1 if plain else r.random()
    if z < 0.2: fe = ["region"]
    elif z < 0.3: fe = ["unit"]
    elif z < 0.5: ab = ["unit"]
    return {"id": cid, "unit": [x[0] for x in rows], "per": per, "d": [x[2] for x in rows], "y": [dy(r) for _ in rows],
            "x": [[dy(r, -3, 3, 2) for _ in rows] for _ in range(ncov)], "post": post, "ref": ref, "fe": fe, "absorb": ab,
            "robust": r.random() < 0.7, "cluster": r.choice([None, None, "unit"]), "alpha": r.choice([0.05, 0.1, 0.01])}


def record(c):
    df = pd.DataFrame({"unit": c["unit"], "per": c["per"], "D": c["d"], "y": c["y"], "region": [(u * 7 + 3) % 3 for u in c["unit"]]})
    xs = []
    for k, col in enumerate(c["x"]):
        df["x%d" % k] = col
        xs.append("x%d" % k)
    if c["cluster"] and len(set(c["unit"])) < 2:
        return []
    q = Quiet()
    est = MultiPeriodDiD(robust=c["robust"], cluster=c["cluster"], alpha=c["alpha"], rank_deficient_action="silent")
    r = q(est.fit, df, outcome="y", treatment="D", time="per", post_periods=c["post"], covariates=xs or None,
          fixed_effects=c["fe"] or None, absorb=c["absorb"] or None, reference_period=c["ref"])
    fac = {"unit": c["unit"], "region": list(map(int, df.region))}
    ev = {"y": fls(c["y"]), "d": fls(c["d"]), "per": c["per"], "cov": [fls(x) for x in c["x"]], "fe": [fac[f] for f in c["fe"]], "fename": list(c["fe"]),
          "absorb": [fac[f] for f in c["absorb"]], "post": c["post"] or [], "ref": c["ref"], "alpha": fl(c["alpha"]),
          "vkind": "cluster" if c["cluster"] else "hc1" if c["robust"] else "hom", "g": c["unit"] if c["cluster"] else [],
          "raised": q.raised, "msg": q.raised + ": " + q.msg[:80], "res": "null"}
    if r is not None:
        eff = []
        for p, e in r.period_effects.items():
            lo, hi = ci(e.conf_int)
            eff.append({"eff": fl(e.effect), "se": fl(e.se), "t": fl(e.t_stat), "p": fl(e.p_value), "lo": lo, "hi": hi})
        lo, hi = ci(r.avg_conf_int)
        ev["res"] = {"eff": eff, "periods": [int(p) for p in r.period_effects], "post": [int(p) for p in r.post_periods], "pre": [int(p) for p in r.pre_periods],
                     "avg": fl(r.avg_att), "avgse": fl(r.avg_se), "avgt": fl(r.avg_t_stat), "avgp": fl(r.avg_p_value), "avglo": lo, "avghi": hi,
                     "coefs": [{"n": str(k), "v": fl(v)} for k, v in r.coefficients.items()], "nobs": fl(r.n_obs), "ntr": fl(r.n_treated), "nco": fl(r.n_control), "r2": fl(r.r_squared), "resid": fls(r.residuals)}
    return [ev]
