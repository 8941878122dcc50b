import random
import vh
from cs import *

SPEC = "P08_Aggregation"
RULE = "aggregated Callaway-Sant'Anna effects (overall, event study with and without balancing, by group) on TLC-enumerated and random staggered panels, with outcome-regression covariates in some"


def generate(tier, work):
    return [dict(vh.generate("GenPanel", c + ".cfg", work), name=c) for c in ("GenPanel_cs3", "GenPanel_cs4")]


def nontrivial(ev):
    return ev["raised"] == ""


def cases(tier, rng, scen):
    agg = ["all", "all", "event_study", "group", None]
    sk = scen["GenPanel_cs3"] + scen["GenPanel_cs4"]
    for i, s in enumerate(rng.sample(sk, min(len(sk), 200 if tier == "quick" else 10 ** 6))):
        r = random.Random("P08s%d" % i)
        yield {"id": "skel%d" % i, "p": from_skel(s, r), "cfg": config(r, agg=r.choice(agg), bal=r.choice([None, None, 0, 1, -1]))}
    for i in range(140 if tier == "quick" else 1500):
        r = random.Random("P08r%s/%d" % (rng.random(), i))
        cov = r.random() < 0.15
        p = rand_panel(r, r.randint(4, 9), r.randint(3, 5), ncov=1 if cov else 0, miss=r.choice([0, 0, 0.2]), gaps=r.random() < 0.2, maxlate=r.randint(0, 2), never=3 if cov else 2)
        yield {"id": "rand%d" % i, "p": p, "cfg": config(r, agg=r.choice(agg), bal=r.choice([None, None, None, 0, 1, 2, -2]), **({"method": "reg"} if cov else {}))}


def record(c):
    q = Quiet()
    r = fit(c["p"], c["cfg"], q)
    if r is None and c["p"]["ncov"]:
        return []
    if r is not None and c["p"]["ncov"] and any(not np.isfinite(d["effect"]) for d in r.group_time_effects.values()):
        return []
    return [{**base_event(c["p"]), **{k: c["cfg"][k] for k in ("control", "a", "method", "base")}, "agg": c["cfg"]["agg"] or "none", "bal": c["cfg"]["bal"],
             "alpha": fl(c["cfg"]["alpha"]), "raised": q.raised, "msg": q.raised + ": " + q.msg[:80],
             "warnedpost": any("post-treatment" in m for _, m in q.warnings), "res": "null" if r is None else res(r)}]
