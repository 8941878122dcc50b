import random
import numpy as np
import pandas as pd
import diff_diff as dd
from diff_diff import prep
import vh
from du import *

SPEC = "P21_Generators"
RULE = ("every data generator on random parameters, called again with one parameter changed at a time so that effect, structure, unit effects, factors and noise separate; "
        "noise-free data handed to the estimators meant for them; rejected parameters; non-trivial when a data set was returned")
GENS = ["did", "staggered", "factor", "ddd", "panel", "event"]
FN = {"did": "generate_did_data", "staggered": "generate_staggered_data", "factor": "generate_factor_data", "ddd": "generate_ddd_data",
      "panel": "generate_panel_data", "event": "generate_event_study_data"}


def nontrivial(ev):
    return ev["raised"] == ""


def cost(c):
    return 2 if c.get("big") else 1


def generate(tier, work):
    return []


def cases(tier, rng, scen):
    for i in range(150 if tier == "quick" else 2400):
        r = random.Random("P21/%d/%s" % (i, rng.random()))
        yield {"id": "%s%d" % (GENS[i % 6], i), "gen": GENS[i % 6], "seed": "%d/%s" % (i, r.random()), "bad": r.random() < 0.12, "big": r.random() < 0.12}
    for i in range(6 if tier == "quick" else 60):
        yield {"id": "census%d" % i, "gen": "census", "seed": "%d/%s" % (i, rng.random())}


def census(c):
    """every requested cohort occurs among very many units"""
    r = random.Random("P21c" + c["seed"])
    T = r.randint(4, 16)
    co = None if r.random() < 0.2 else r.sample(range(1, T), r.randint(1, T - 1))
    df = prep.generate_staggered_data(n_units=500, n_periods=T, cohort_periods=co, never_treated_frac=0.2, seed=r.randrange(10 ** 6))
    first = df.groupby("unit")["first_treat"].first()
    return [{"gen": "census", "bad": False, "raised": "", "msg": "", "cohorts": co or ([3, 5, 7] if T >= 8 else [T // 3, 2 * T // 3]), "seen": [[int(g), int(n)] for g, n in first.value_counts().items()]}]


def frac_of(r):
    return r.choice([0.5, 0.25, 0.3, 0.4, 0.6, 1 / 3, 0.2])


def params(gen, r, big):
    k = dict(seed=r.randrange(10 ** 6), treatment_effect=r.choice([dy(r, -4, 4, 2), 0.0, 5.0]), noise_sd=r.choice([0.25, 0.5, 1.0, 2.0]))
    nu = r.randint(16, 20) if big else r.randint(4, 9)
    if gen != "ddd":
        k["unit_fe_sd"] = r.choice([0.5, 1.0, 2.0, 0.0])
    if gen == "did":
        T = r.randint(2, 6)
        k.update(n_units=nu, n_periods=T, treatment_fraction=frac_of(r), treatment_period=r.randint(1, T - 1), time_trend=dy(r, -1, 1, 2))
    elif gen == "staggered":
        T = r.randint(4, 9) if r.random() < 0.8 else r.randint(22, 30)
        k.update(n_units=nu if T < 10 else min(nu, 7), n_periods=T, never_treated_frac=r.choice([0.0, 0.3, 0.5, 0.25]), dynamic_effects=r.random() < 0.6, effect_growth=dy(r, -1, 1, 2), time_trend=dy(r, -1, 1, 2))
        if r.random() < 0.7:
            k["cohort_periods"] = r.sample(range(1, T), r.randint(1, min(3 if T < 10 else 12, T - 1)))
    elif gen == "factor":
        k.update(n_units=nu, n_pre=r.randint(1, 5), n_post=r.randint(1, 4), n_treated=r.choice([1, 2, nu // 2, nu]), n_factors=r.randint(0, 3),
                 factor_strength=r.choice([1.0, 0.5, 2.0]), treated_loading_shift=r.choice([0.5, -1.0, 2.0]))
    elif gen == "ddd":
        k.update(n_per_cell=r.randint(13, 15) if big else r.randint(1, 5), group_effect=dy(r, -2, 2, 2), partition_effect=dy(r, -2, 2, 2), time_effect=dy(r, -2, 2, 2), add_covariates=r.random() < 0.5)
    elif gen == "panel":
        T = r.randint(2, 7)
        k.update(n_units=nu, n_periods=T, treatment_period=r.randint(1, T - 1), treatment_fraction=frac_of(r), parallel_trends=r.random() < 0.5, trend_violation=dy(r, -2, 2, 2))
    else:
        k.update(n_units=nu, n_pre=r.randint(1, 4), n_post=r.randint(1, 4), treatment_fraction=frac_of(r))
    return k


def spoil(gen, k, r):
    if gen == "staggered":
        k["cohort_periods"] = r.choice([[0], [1, k["n_periods"]], [-1], [k["n_periods"] + 2, 1]])
    elif gen == "factor":
        k["n_treated"] = r.choice([0, -1, k["n_units"] + 1])
    else:
        k["treatment_period"] = r.choice([0, -2, k["n_periods"], k["n_periods"] + 3])


def ints(s):
    return [int(x) for x in s]


def record(c):
    if c["gen"] == "census":
        return census(c)
    r = random.Random("P21r" + c["seed"])
    gen = c["gen"]
    fn = getattr(prep, FN[gen])
    k = params(gen, r, c["big"])
    bad = c["bad"] and gen in ("staggered", "factor", "panel")
    if bad:
        spoil(gen, k, r)
    np.random.seed(r.randrange(1000))
    q = Quiet()
    df = q(fn, **k)
    ev = {"gen": gen, "bad": bad, "raised": q.raised, "msg": q.raised + ": " + q.msg[:100]}
    if bad or q.raised:
        return [ev]

    def again(**d):
        return fn(**{**k, **d})

    y = lambda d: fls(d["outcome"])
    te2 = k["treatment_effect"] + r.choice([1.0, -2.5])
    fe = {} if gen == "ddd" else {"unit_fe_sd": 0.0}
    np.random.seed(7)
    ev.update(y=y(df), y0=y(again(noise_sd=0.0, **fe)), yf=y(again(noise_sd=0.0)), y2=y(again(noise_sd=2 * k["noise_sd"])), ye=y(again(treatment_effect=te2)),
              yff=y(again(noise_sd=0.0, **({} if gen == "ddd" else {"unit_fe_sd": 2 * k["unit_fe_sd"]}))),
              again=bool(df.equals(again())), differs=bool(not df["outcome"].equals(again(seed=k["seed"] + 1)["outcome"])),
              eff=fls(df["true_effect"]), te=fl(k["treatment_effect"]), te2=fl(te2), noise=fl(k["noise_sd"]),
              u=ints(df["unit_id" if gen == "ddd" else "unit"]), t=ints(df["time" if gen == "ddd" else "period"]),
              treat=fls(df["treat"]) if "treat" in df else fls(df["treated"]) if "treated" in df else [],
              treated=fls(df["treated"]) if "treated" in df else [], post=fls(df["post"]) if "post" in df else [],
              g=ints(df["first_treat"]) if gen == "staggered" else ints(df["group"]) if gen == "ddd" else [],
              part=ints(df["partition"]) if gen == "ddd" else [], rel=ints(df["event_time"]) if gen == "event" else [],
              trend=fl(k.get("time_trend", 0.0)), growth=fl(k.get("effect_growth", 0.0)), dynamic=bool(k.get("dynamic_effects", False)),
              frac=fl(k.get("never_treated_frac", k.get("treatment_fraction", 0.0))), nunits=k.get("n_units", 0),
              nper=k.get("n_periods", k.get("n_pre", 0) + k.get("n_post", 0)), start=k.get("treatment_period", k.get("n_pre", 0)),
              ntreated=k.get("n_treated", 0), nfactors=k.get("n_factors", 0), percell=k.get("n_per_cell", 0),
              cohorts=k.get("cohort_periods", []), geff=fl(k.get("group_effect", 0.0)), peff=fl(k.get("partition_effect", 0.0)), teff=fl(k.get("time_effect", 0.0)),
              covs=bool(k.get("add_covariates", False)), hascovs=bool("age" in df or "education" in df),
              age=fls(df["age"]) if "age" in df else [], edu=fls(df["education"]) if "education" in df else [],
              parallel=bool(k.get("parallel_trends", True)), violation=fl(k.get("trend_violation", 0.0)))
    if gen == "staggered" and "cohort_periods" not in k:
        T = k["n_periods"]
        ev["cohorts"] = [3, 5, 7] if T >= 8 else [T // 3, 2 * T // 3]
    if gen == "factor":
        z = dict(noise_sd=0.0, unit_fe_sd=0.0)
        ev.update(yfz=y(again(factor_strength=0.0, **z)), yf1=y(again(factor_strength=1.0, **z)), yf2=y(again(factor_strength=2.0, **z)),
                  yn=y(again(factor_strength=1.0, treated_loading_shift=0.0, **z)))
    ev["recover"] = recover(gen, k, again, r)
    return [ev]


def recover(gen, k, again, r):
    d = again(noise_sd=0.0)
    te = k["treatment_effect"]
    out = []

    def add(by, f, want=te):
        q = Quiet()
        got = q(f)
        out.append({"by": by, "got": fl(float("nan") if q.raised else got), "want": fl(want)})

    if gen in ("did", "panel", "event"):
        two = d["treated"].nunique() == 2
        if gen == "panel" and not k["parallel_trends"]:
            two = False
        if two:
            if gen == "event":
                d["post"] = d["post"].astype(int)
            add("DifferenceInDifferences", lambda: dd.DifferenceInDifferences().fit(d, "outcome", "treated", "post").att)
            posts = sorted(d.loc[d["post"] == 1, "period"].unique())
            add("MultiPeriodDiD", lambda: dd.MultiPeriodDiD().fit(d, "outcome", "treated", "period", post_periods=posts).avg_att)
            add("SyntheticDiD", lambda: dd.SyntheticDiD(seed=1, n_bootstrap=5).fit(d, "outcome", "treated", "unit", "period", post_periods=posts).att)
    elif gen == "staggered" and (d["first_treat"] == 0).any() and (d["first_treat"] > 0).any() and not k["dynamic_effects"]:
        add("CallawaySantAnna", lambda: dd.CallawaySantAnna().fit(d, "outcome", "unit", "period", "first_treat").overall_att)
        add("SunAbraham", lambda: dd.SunAbraham().fit(d, "outcome", "unit", "period", "first_treat").overall_att)
    elif gen == "ddd" and not k["add_covariates"]:
        add("TripleDifference", lambda: dd.TripleDifference(estimation_method="reg").fit(d, "outcome", "group", "partition", "time").att)
    return out
