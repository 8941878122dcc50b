import random
import vh
from cs import *
from diff_diff import SunAbraham

SPEC = "P10_SunAbraham"
RULE = ("Sun-Abraham fits on TLC-enumerated and random staggered panels (unbalanced, with anticipation, covariates, other clusters); "
        "pairs bootstraps on panels of 4-5 units whose resamples are all enumerated")
CASE_TIMEOUT = 120


def generate(tier, work):
    return [dict(vh.generate("GenPanel", c + ".cfg", work), name=c) for c in ("GenPanel_cs3", "GenPanel_cs4")]


def nontrivial(ev):
    return ev.get("raised", "") == ""


def cost(c):
    return 4 if c["kind"] == "boot" else 1


def cases(tier, rng, scen):
    q = tier == "quick"
    sk = scen["GenPanel_cs3"] + scen["GenPanel_cs4"]
    for i, s in enumerate(rng.sample(sk, min(len(sk), 130 if q else 1800))):
        r = random.Random("P10s%d" % i)
        yield {"id": "skel%d" % i, "kind": "fit", "p": from_skel(s, r), "a": r.choice([0, 0, 0, 1]), "alpha": r.choice([0.05, 0.1]), "cl": None, "seed": i, "ctl": r.choice(["never_treated", "not_yet_treated"])}
    for i in range(110 if q else 1200):
        r = random.Random("P10r%s/%d" % (rng.random(), i))
        p = rand_panel(r, r.randint(4, 6), r.randint(3, 5), ncov=r.choice([0, 0, 1]), miss=r.choice([0, 0, 0.15]), gaps=r.random() < 0.35, maxlate=r.randint(0, 1))
        yield {"id": "rand%d" % i, "kind": "fit", "p": p, "a": r.choice([0, 0, 0, 1]), "alpha": r.choice([0.05, 0.1]), "cl": r.choice([None, None, "cl"]), "seed": i, "ctl": r.choice(["never_treated", "not_yet_treated"])}
    for i in range(14 if q else 100):
        r = random.Random("P10b%s/%d" % (rng.random(), i))
        nu = r.choice([4, 5])
        cls = [0, 0] + ([2] * (nu - 2) if r.random() < 0.6 else [r.choice([2, 3]) for _ in range(nu - 2)])
        r.shuffle(cls)
        p = panel(r, cls, [[1, 2, 3]] * nu, 3, 0)
        yield {"id": "boot%d" % i, "kind": "boot", "p": p, "a": 0, "alpha": r.choice([0.05, 0.1]), "cl": None, "seed": r.randint(0, 10 ** 6), "B": 120, "ctl": "never_treated", "idx": r.choice(["default", "shift", "dup"])}


def run(c, q, seed):
    p = c["p"]
    df = frame(p)
    df["cl"] = [u % 3 for u, _ in p["rows"]]
    if c.get("idx") == "shift":
        df.index = [7 * (len(df) - i) for i in range(len(df))]
    elif c.get("idx") == "dup":
        df.index = [i // 2 for i in range(len(df))]
    est = SunAbraham(control_group=c["ctl"], anticipation=c["a"], alpha=c["alpha"], cluster=c["cl"], rank_deficient_action="silent", n_bootstrap=c.get("B", 0), seed=seed)
    return q(est.fit, df, outcome="y", unit="id", time="t", first_treat="g", covariates=["x%d" % k for k in range(p["ncov"])] or None)


def record(c):
    p = c["p"]
    q = Quiet()
    r = run(c, q, c["seed"])
    per = [p["pers"][t - 1] for _, t in p["rows"]]
    ev = {"kind": "fit", "unit": [u for u, _ in p["rows"]], "per": per, "coh": [p["coh"][u] for u, _ in p["rows"]], "y": fls(p["y"]),
          "cov": [[fl(row[k]) for row in p["x"]] for k in range(p["ncov"])], "g": [u % 3 if c["cl"] else u for u, _ in p["rows"]], "a": c["a"],
          "alpha": fl(c["alpha"]), "boot": c["kind"] == "boot", "raised": q.raised, "msg": q.raised + ": " + q.msg[:80], "res": "null"}
    if c["cl"] and len({u % 3 for u, _ in p["rows"]}) < 2:
        return []
    if r is None:
        return [ev]
    lo, hi = ci(r.overall_conf_int)
    lab = lambda v: gint(v) if np.isfinite(v) else 10 ** 8
    ev["res"] = {"cells": [{"g": lab(g), "e": lab(e), "eff": fl(d["effect"]), "se": fl(d["se"]), "w": fl(d["weight"])} for (g, e), d in r.cohort_effects.items()],
                 "es": [{"e": lab(e), "n": int(d["n_groups"]), **stat(d)} for e, d in r.event_study_effects.items()], "groups": [lab(g) for g in r.groups],
                 "nobs": int(r.n_obs), "ntr": int(r.n_treated_units), "nco": int(r.n_control_units),
                 "o": {"eff": fl(r.overall_att), "se": fl(r.overall_se), "tst": fl(r.overall_t_stat), "p": fl(r.overall_p_value), "lo": lo, "hi": hi}}
    out = [ev]
    if c["kind"] == "boot":
        b = r.bootstrap_results
        out.append({**ev, "kind": "boot", "draws": fls(b.bootstrap_distribution), "B": c["B"]})
        r2, r3 = run(c, Quiet(), c["seed"]), run(c, Quiet(), c["seed"] + 1)
        out.append({"kind": "repeat", **{"d%d" % (i + 1): [float(v).hex() for v in x.bootstrap_results.bootstrap_distribution] for i, x in enumerate((r, r2, r3))}})
    return out
