import math
import random
import numpy as np
from scipy import stats
import runs
import vh
from du import *



SPEC = "P05_Inference"
RULE = ("every analysis run on one data set at several significance levels in turn (orders enumerated by TLC), on ordinary, unbalanced, noise-free and constant outcomes; all estimates, standard errors, "
        "t, p, intervals, verdicts and stars of every result recorded; non-trivial when the analysis answers")
CASE_TIMEOUT = 110
POOL = [0.001, 0.01, 0.05, 0.1, 0.32, 0.5]


def nontrivial(ev):
    return ev["raised"][0] == ""


def cost(c):
    return 40 if c["run"].startswith(("trop", "sa.boot")) else 5


def design(tier):
    return [("Significance", "Significance_design.cfg")]


def generate(tier, work):
    return [vh.generate("Significance", "Significance_gen.cfg", work)]


def opts(name, r):
    tr = runs.R[name]
    k = dict(nu=r.choice([16, 18])) if tr.get("big") else dict(nu=5, T=4) if tr.get("small") else {}
    if tr.get("xfix"): k.update(xvar=False, nu=r.choice([12, 14]))
    if tr.get("ant"): k["mincoh"] = 2
    if tr.get("gapsok") and r.random() < 0.4: k["gaps"] = r.randint(1, 4)
    return k


def cases(tier, rng, scen):
    q = tier == "quick"
    levels = sorted((s["levels"] for s in scen["Significance"]), key=str)
    for n in runs.names():
        if n.startswith(("bacon", "pt.", "rank", "candidates")): continue
        r = random.Random("P05/%s/%s" % (n, rng.random()))
        slow = n.startswith(("trop", "sa.boot"))
        k = (3 if slow else 8) if q else (8 if slow else 36)
        for i in range(k):
            z = "plain" if i % 4 or runs.R[n].get("loose") else r.choice(["const", "exact", "steps"])
            yield {"id": "%s.%d" % (n, i), "run": n, "levels": r.choice(levels), "jit": r.random() < 0.5, "y": z, "seed": "%s/%d/%d" % (n, i, r.randrange(10 ** 9)), "o": opts(n, r)}


def one(k, x, names, sig="-", stars="-", at="-"):
    get = (lambda f: x.get(f, float("nan"))) if isinstance(x, dict) else (lambda f: getattr(x, f))
    lo, hi = ci(get(names[4]))
    return {"k": k, "eff": fl(get(names[0])), "se": fl(get(names[1])), "t": fl(get(names[2])), "p": fl(get(names[3])), "lo": lo, "hi": hi,
            "sig": sig if sig == "-" else str(bool(sig)), "stars": stars, "at": at}


EFF = ("effect", "se", "t_stat", "p_value", "conf_int")
OV = ("overall_att", "overall_se", "overall_t_stat", "overall_p_value", "overall_conf_int")
AV = ("avg_att", "avg_se", "avg_t_stat", "avg_p_value", "avg_conf_int")
AT = ("att", "se", "t_stat", "p_value", "conf_int")
PL = ("placebo_effect", "se", "t_stat", "p_value", "conf_int")


def ests(r):
    out = []
    if hasattr(r, "overall_att"):
        out.append(one("overall", r, OV, r.is_significant, r.significance_stars, "alpha"))
        for g, e in (getattr(r, "group_time_effects", None) or {}).items(): out.append(one("att%s" % (g,), e, EFF))
        for g, e in (r.event_study_effects or {}).items(): out.append(one("event%s" % g, e, EFF))
        for g, e in (getattr(r, "group_effects", None) or {}).items(): out.append(one("group%s" % g, e, EFF))
    elif hasattr(r, "avg_att"):
        out.append(one("avg", r, AV, r.is_significant, r.significance_stars, "alpha"))
        for p, e in r.period_effects.items(): out.append(one("period%s" % p, e, EFF, e.is_significant, e.significance_stars, "0.05"))
    elif hasattr(r, "placebo_effect"):
        out.append(one("placebo", r, PL, r.is_significant, r.significance_stars, "alpha"))
    elif hasattr(r, "att"):
        out.append(one("att", r, AT, r.is_significant, r.significance_stars, "alpha"))
    return out


def robust(rs):
    return [{"lb": fl(r.lb), "ub": fl(r.ub), "lo": fl(r.ci_lb), "hi": fl(r.ci_ub), "eff": fl(r.original_estimate), "se": fl(r.original_se), "sig": str(bool(r.is_significant)), "stars": r.significance_stars,
             "width": fl(r.identified_set_width), "ciwidth": fl(r.ci_width)} for r in rs]


def pretrends(rs):
    return [{"power": fl(r.power), "mdv": fl(r.mdv), "crit": fl(r.critical_value), "n": int(r.n_pre_periods), "stat": fl(r.test_statistic), "ok": str(bool(r.power_adequate)), "inf": str(bool(r.is_informative)),
             "target": fl(r.target_power), "maxse": fl(max(r.pre_period_ses)) if len(r.pre_period_ses) else 1.0} for r in rs]


def df_of(es, alpha, n):
    """the degrees of freedom behind an interval, as a witness (0: the normal distribution)"""
    for e in es:
        if not (math.isfinite(e["se"]) and e["se"] > 1e-6 and math.isfinite(e["hi"])): continue
        c = (e["hi"] - e["lo"]) / 2 / e["se"]
        best = min([0] + list(range(1, n + 1)), key=lambda d: abs(c - (stats.t.ppf(1 - alpha / 2, d) if d else stats.norm.ppf(1 - alpha / 2))))
        return best
    return -1


def record(c):
    r = random.Random("P05r" + c["seed"])
    tr = runs.R[c["run"]]
    df = runs.base(tr["kind"], c["seed"], **c["o"])
    if c["y"] == "const": df["y"] = 3.0
    if c["y"] == "exact": df["y"] = df["unit"] * 0.5 + df["time"] * 0.25 + 2.0 * df["dp"]
    if c["y"] == "steps": df["y"] = (df["y"] > 0).astype(float)
    runs.setup(df)
    shots, raised, alphas, dfs = [], [], [], []
    kind = "honest" if c["run"].startswith("honest") else "pre" if c["run"] == "pretrends" else "est"
    for i in c["levels"]:
        a = POOL[i - 1]
        if c["jit"]: a = round(a * 1.3 + 0.0007, 6)
        runs.AL.clear()
        runs.AL["alpha"] = a
        q = Quiet()
        keep = []
        try:
            q(tr["f"], df.copy(), runs.World(), keep)
        finally:
            runs.AL.clear()
        es = [] if q.raised else robust(keep) if kind == "honest" else pretrends(keep) if kind == "pre" else ests(keep[0])
        alphas.append(a)
        raised.append(q.raised)
        shots.append(es)
        dfs.append(df_of(es, a, len(df)) if kind == "est" else -1)
        kept = fl(getattr(keep[0], "alpha", a)) if keep else a
        if kept != a: alphas[-1] = -1.0
    return [{"run": c["run"], "kind": kind, "alphas": alphas, "raised": raised, "shots": shots, "dfs": dfs, "n": len(df), "loose": bool(tr.get("loose"))}]
