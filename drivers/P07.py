import random
import vh
from cs import *

SPEC = "P07_GroupTime"
RULE = ("Callaway-Sant'Anna fits on every 3-unit 3-period cohort/missingness skeleton and every fully observed 5-unit 4-period cohort assignment enumerated by TLC "
        "(sampled in quick) and random panels with gaps, anticipation, both base periods, both control groups, three methods with and without covariates")


def generate(tier, work):
    return [dict(vh.generate("GenPanel", c + ".cfg", work), name=c) for c in ("GenPanel_cs3", "GenPanel_cs4")]


def nontrivial(ev):
    return ev["raised"] == ""


def cases(tier, rng, scen):
    sk = scen["GenPanel_cs3"] + scen["GenPanel_cs4"]
    for i, s in enumerate(rng.sample(sk, min(len(sk), 220 if tier == "quick" else 10 ** 6))):
        r = random.Random("P07s%d" % i)
        yield {"id": "skel%d" % i, "p": from_skel(s, r), "cfg": config(r)}
    for i in range(160 if tier == "quick" else 1500):
        r = random.Random("P07r%s/%d" % (rng.random(), i))
        yield {"id": "rand%d" % i, "p": rand_panel(r, r.randint(3, 9), r.randint(2, 5), miss=r.choice([0, 0, 0.2]), gaps=r.random() < 0.2, maxlate=r.randint(0, 2)),
               "cfg": config(r)}
    for i in range(90 if tier == "quick" else 900):
        r = random.Random("P07c%s/%d" % (rng.random(), i))
        nt = r.randint(2, 3)
        p = rand_panel(r, r.randint(8, 14), nt, ncov=r.choice([1, 1, 2]), miss=r.choice([0, 0, 0.1]), maxlate=0, never=r.randint(4, 7), xmiss=r.random() < 0.15)
        if r.random() < 0.2:                      # constant covariate among some units
            for row in p["x"]:
                row[0] = 1.0
        yield {"id": "cov%d" % i, "p": p, "cfg": config(r, a=0)}


def record(c):
    q = Quiet()
    r = fit(c["p"], c["cfg"], q)
    ev = {**base_event(c["p"]), **{k: c["cfg"][k] for k in ("control", "a", "method", "base")}, "alpha": fl(c["cfg"]["alpha"]), "raised": q.raised,
          "msg": q.raised + ": " + q.msg[:80], "warnedcov": any("covariate" in m for _, m in q.warnings), "res": "null" if r is None else res(r)}
    return [ev]
