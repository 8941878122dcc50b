import random
import warnings
import numpy as np
import pandas as pd
import diff_diff as dd
import runs
import vh
from diff_diff import linalg, prep, prep_dgp
from du import *

SPEC = "P26_Requests"
RULE = ("every analysis asked with the sets of up to two faults enumerated by TLC from the request model (columns gone, missing, infinite or textual values at random rows, relabelled or constant indicators, "
        "designs that identify nothing) and every call with one or two arguments of its table replaced; all sets of one fault, sampled sets of two; non-trivial when there is a fault or an argument")
CASE_TIMEOUT = 110
RUNS = [n for n in runs.names() if n != "candidates"]
SLOW = ("trop", "sa.boot", "sdid", "honest")


def design(tier):
    return [("Requests", "Requests_design.cfg")]


def generate(tier, work):
    return [vh.generate("Requests", "Requests_gen.cfg", work)]


def nontrivial(ev):
    return bool(ev.get("faults") or ev.get("args"))


def cost(c):
    return 2 if c["run"].startswith("trop") else 1


def cases(tier, rng, scen):
    q = tier == "quick"
    sets = sorted(([[f["kind"], f["col"]] for f in sorted(s["faults"], key=str)] for s in scen["Requests"] if "faults" in s), key=str)
    ones, twos = [s for s in sets if len(s) == 1], [s for s in sets if len(s) == 2]
    for n in RUNS:
        r = random.Random("P26/%s/%s" % (n, rng.random()))
        slow = n.startswith(SLOW)
        pick = [[]] + ones + r.sample(twos, (6 if slow else 14) if q else (60 if slow else 260))
        size = 10 if slow else 15
        for i in range(0, len(pick), size):
            yield {"id": "%s.%d" % (n, i), "run": n, "sets": pick[i:i + size], "seed": "%s/%d/%d" % (n, i, r.randrange(10 ** 9))}
    calls = {}
    for s in scen["Requests"]:
        if "call" in s: calls.setdefault(s["call"], []).append(sorted([list(a) for a in s["args"]]))
    for c, ss in sorted(calls.items()):
        ss.sort()
        r = random.Random("P26a/%s/%s" % (c, rng.random()))
        pick = [s for s in ss if len(s) < 2] + (lambda t: r.sample(t, min(len(t), 20 if q else 200)))([s for s in ss if len(s) == 2])
        for i in range(0, len(pick), 20):
            yield {"id": "args.%s.%d" % (c, i), "run": c, "argsets": pick[i:i + 20], "seed": "%s/%d/%d" % (c, i, r.randrange(10 ** 9))}


# ---------------------------------------------------------------- faults
def put(df, kind, col, r):
    n = len(df)
    at = r.randrange(n) if n else 0
    if kind == "drop": return df.drop(columns=[col])
    if kind in ("nan", "inf"):
        v = df[col].astype(float).to_numpy(copy=True)
        if n: v[at] = np.nan if kind == "nan" else r.choice([np.inf, -np.inf])
        return df.assign(**{col: v})
    if kind == "str": return df.assign(**{col: [str(v) + "a" for v in df[col]]})
    if kind == "two": return df.assign(**{col: df[col] * 2})
    if kind == "three":
        v = df[col].to_numpy(copy=True)
        if n: v[at] = 2
        return df.assign(**{col: v})
    if kind in ("all0", "all1"): return df.assign(**{col: int(kind[3])})
    if kind == "never": return df.assign(ft=0)
    if kind == "always": return df.assign(ft=df.ft.where(df.ft > 0, int(df.time.max()) if n and "time" in df else 1))
    if kind == "late": return df.assign(ft=[int(T0 + 2) if v > 0 else 0 for v in df.ft])
    if kind == "recede":
        v = df[col].to_numpy(copy=True)
        for u in [max(UT)]:
            v[(df.index.map(lambda i: UNIT[i] == u and TIME[i] == T0)).to_numpy(dtype=bool)] = 0
        return df.assign(**{col: v})
    if kind == "early": return df.assign(**{col: [int(UNIT[i] in UT and TIME[i] >= 1) for i in df.index]})
    if kind == "stagger": return df.assign(**{col: [int(UNIT[i] in UT and TIME[i] >= (T0 if UNIT[i] == max(UT) else FIRST)) for i in df.index]})
    raise KeyError(kind)


T0 = FIRST = 0
UNIT, TIME, UT = {}, {}, ()


def faulty(df, fs, r):
    """rows first, then columns, the table itself last"""
    for kind, col in fs:
        if kind == "empty": df = df.iloc[:0]
        if kind == "unbalanced": df = df.drop(index=[r.choice(list(df.index))])
        if kind == "nocell":
            df = df[~((df.d == r_of(r, "d")) & (df.part == r_of(r, "part")) & (df.post == r_of(r, "post")))]
    for kind, col in fs:
        if col != "*" and kind != "drop": df = put(df, kind, col, r)
    for kind, col in fs:
        if kind == "drop": df = put(df, kind, col, r)
    for kind, col in fs:
        if kind == "list": df = df.values.tolist()
    return df


def r_of(r, c):
    return r.choice([0, 1])


HEADS = ("att", "avg", "overall", "placebo")


def record(c):
    return args_record(c) if "argsets" in c else data_record(c)


def data_record(c):
    global T0, FIRST, UNIT, TIME, UT
    r = random.Random("P26r" + c["seed"])
    tr = runs.R[c["run"]]
    o = dict(nu=r.choice([16, 18])) if tr.get("big") else dict(nu=5, T=4) if tr.get("small") else {}
    if c["run"].startswith("trop.joint") or tr.get("small"): o["start"] = 2
    if tr.get("xfix"): o.update(xvar=False, nu=r.choice([12, 14]))
    if tr.get("ant"): o["mincoh"] = 2
    df = runs.base(tr["kind"], c["seed"], **o)
    runs.setup(df)
    T0, UNIT, TIME = int(df.time.max()), df.unit.to_dict(), df.time.to_dict()
    UT, FIRST = set(df.loc[df.dp == 1, "unit"]), int(df.loc[df.dp == 1, "time"].min())
    q0 = Quiet()
    a = q0(tr["f"], df.copy(), runs.World())
    out = []
    for fs in c["sets"]:
        d2 = faulty(df.copy(), fs, random.Random(str(r.random())))
        keep = d2.copy() if isinstance(d2, pd.DataFrame) else str(d2)
        q = Quiet()
        b = q(tr["f"], d2, runs.World())
        pure = (str(d2) == keep) if isinstance(keep, str) else same_frame(d2, keep)
        ok = not q.raised
        out.append({"form": "data", "run": c["run"], "faults": fs, "raised0": q0.raised, "raised": q.raised, "msg": (q.msg or "")[:80], "pure": pure, "loose": bool(tr.get("loose")),
                    "heads": [x["v"] for x in b if x["k"] in HEADS] if ok else [], "a": shaved(a) if ok and not q0.raised and same_call(c["run"], fs) else [], "b": shaved(b) if ok and same_call(c["run"], fs) else []})
    return out


def same_call(run, fs):
    return all(col != "*" for _, col in fs)


def shaved(x):
    return [{"k": e["k"], "role": e["role"], "v": str(e["v"]) if e["role"] == "n" else e["v"], "g": e["g"]} for e in x if e["role"]]


def same_frame(x, y):
    return list(x.columns) == list(y.columns) and x.index.equals(y.index) and x.equals(y) and list(map(str, x.dtypes)) == list(map(str, y.dtypes))


# ---------------------------------------------------------------- arguments
def world(seed):
    r = random.Random("P26w" + seed)
    two = runs.base("two", seed, nu=16, T=5, start=3)
    stag = runs.base("stag", seed)
    return r, two, stag


def call_did(A, two, stag, r):
    ctor = {"rank_deficient_action": {"bogus": "bogus"}.get(A.get("action"), "silent")}
    if "cluster" in A: ctor["cluster"] = {"unknown": "zz", "unit": "unit"}[A["cluster"]]
    kw = {}
    if "formula" in A:
        kw["formula"] = {"no_tilde": "y d * post", "no_interaction": "y ~ d + post", "triple": "y ~ d * post * x", "absent": "y ~ d * zz", "absent_cov": "y ~ d * post + zz",
                         "star": "y ~ d * post", "colon": "y ~ d + post + d:post", "with_cov": "y ~ d * post + x"}[A["formula"]]
    else:
        kw.update(outcome="y", treatment="d", time="post")
    for k in ("fixed_effects", "absorb", "covariates"):
        if k in A: kw[k] = [{"unknown": "zz"}.get(A[k], A[k])]
    return dd.DifferenceInDifferences(**ctor).fit(two, **kw)


def call_did_args(A, two, stag, r):
    kw = dict(outcome="y", treatment="d", time="post")
    for k in A: kw.pop(k)
    return dd.DifferenceInDifferences().fit(two, **kw)


def posts(v, df):
    P = sorted(int(t) for t in df.loc[df.post == 1, "time"].unique())
    return {"unknown": P + [99], "every": sorted(int(t) for t in df.time.unique()), "none": [], "last": P[-1:], None: P}[v]


def call_mp(A, two, stag, r):
    kw = dict(post_periods=posts(A.get("posts"), two))
    if "ref" in A: kw["reference_period"] = {"unknown": 77, "first": 0}[A["ref"]]
    for k in ("fixed_effects", "absorb", "covariates"):
        if k in A: kw[k] = [{"unknown": "zz"}.get(A[k], A[k])]
    return dd.MultiPeriodDiD(rank_deficient_action="silent").fit(two, "y", "d", "time", **kw)


def call_cs(A, two, stag, r):
    ctor = dict(estimation_method="reg", rank_deficient_action=A.get("action", "silent"))
    ctor.update({k: v for k, v in A.items() if k in ("control_group", "estimation_method", "base_period", "bootstrap_weights")})
    return dd.CallawaySantAnna(**ctor).fit(stag, "y", "unit", "time", "ft", covariates=["zz"] if "covariates" in A else None)


def call_sa(A, two, stag, r):
    return dd.SunAbraham(control_group=A.get("control_group", "never_treated"), rank_deficient_action=A.get("action", "silent")).fit(stag, "y", "unit", "time", "ft", covariates=["zz"] if "covariates" in A else None)


def call_sdid(A, two, stag, r):
    return dd.SyntheticDiD(variance_method=A.get("variance_method", "placebo"), n_bootstrap=3, seed=1).fit(two, "y", "d", "unit", "time", post_periods=posts(A.get("posts"), two))


def call_td(A, two, stag, r):
    ctor = dict(estimation_method=A.get("estimation_method", "reg"), rank_deficient_action=A.get("action", "silent"))
    if "cluster" in A: ctor["cluster"] = "zz"
    return dd.TripleDifference(**ctor).fit(two, "y", "d", "part", "post", covariates=["zz"] if "covariates" in A else None)


def call_trop(A, two, stag, r):
    small = two[(two.unit < 5)]
    return dd.TROP(method=A.get("method", "twostep"), variance_method=A.get("variance_method", "bootstrap"), n_bootstrap=2, seed=1, max_iter=5, lambda_time_grid=[0.0], lambda_unit_grid=[0.0],
                   lambda_nn_grid=[float("inf")]).fit(small, "y", "dp", "unit", "time")


def call_bacon(A, two, stag, r):
    return dd.BaconDecomposition(weights=A.get("weights", "approximate")).fit(stag, "y", "unit", "time", "ft")


def studied(v, two, stag, pre=False):
    if v == "did": return dd.DifferenceInDifferences().fit(two, "y", "d", "post")
    if v == "no_event_study": return dd.CallawaySantAnna(estimation_method="reg").fit(stag, "y", "unit", "time", "ft")
    if v == "sa": return dd.SunAbraham(rank_deficient_action="silent").fit(stag, "y", "unit", "time", "ft")
    return dd.CallawaySantAnna(estimation_method="reg", base_period="universal").fit(stag, "y", "unit", "time", "ft", aggregate="event_study")


LEVEL = {"zero": 0.0, "above_one": 1.5, "tenth": 0.1, "one": 1.0, "negative": -0.2, "half": 0.5}


def call_honest(A, two, stag, r):
    kw = dict(method=A.get("method", "relative_magnitude"), M={"negative": -1.0, "zero": 0.0}.get(A.get("M"), 0.5), alpha=LEVEL[A["alpha"]] if "alpha" in A else 0.05)
    if "l_vec" in A: kw["l_vec"] = np.ones(40) / 40
    return dd.HonestDiD(**kw).fit(studied(A.get("results"), two, stag))


def call_pretrends(A, two, stag, r):
    t = A.get("type", "linear")
    kw = dict(violation_type="custom" if t.startswith("custom") else t)
    if t == "custom_wrong_length": kw["violation_weights"] = np.ones(40)
    for k in ("alpha", "power"):
        if k in A: kw[k] = LEVEL[A[k]]
    return dd.PreTrendsPower(**kw).fit(studied(A.get("results"), two, stag))


def call_power(A, two, stag, r):
    kw = {k: LEVEL.get(v, v) for k, v in A.items()}
    return dd.PowerAnalysis(**kw).mde(n_treated=20, n_control=20, sigma=1.0)


def call_placebo(A, two, stag, r):
    t = A.get("test_type", "leave_one_out")
    kw = dict(unit="unit")
    name, col = t, "post"
    if t == "group_without_unit": name, kw = "fake_group", dict(fake_treatment_group=[0])
    if t == "group_without_units": name = "fake_group"
    if t == "permutation_without_unit": name, kw = "permutation", {}
    if t == "loo_without_unit": name, kw = "leave_one_out", {}
    if t == "timing_in_post": name, col, kw = "fake_timing", "time", dict(fake_treatment_period=4, post_periods=[3, 4], unit="unit")
    if name == "permutation": kw["n_permutations"] = 9
    return dd.run_placebo_test(two, "y", "d", col, test_type=name, **kw)


def rule(A, key, both, alone):
    v = A.get("rule")
    return both if v == "both" else {} if v == "neither" else dict([list(both.items())[1 if v in ("threshold", "start") else 0]])


def call_treat(A, two, stag, r):
    col = {"unknown": "zz", "x": "x"}.get(A.get("column"), "unit")
    return prep.make_treatment_indicator(two, col, **rule(A, "rule", dict(treated_values=[1, 2], threshold=0.5), None))


def call_post(A, two, stag, r):
    return prep.make_post_indicator(two, "zz" if "column" in A else "time", **rule(A, "rule", dict(post_periods=[3, 4], treatment_start=3), None))


def call_wide(A, two, stag, r):
    w = two.pivot(index="unit", columns="time", values="y").rename(columns=lambda t: "y%d" % t).reset_index()
    cols = [c for c in w.columns if c != "unit"]
    kw = {}
    if "times" in A: kw["time_values"] = list(range(len(cols) - (A["times"] == "short")))
    if A.get("values") == "empty": cols = []
    if A.get("values") == "unknown": cols = cols + ["zz"]
    if A.get("times") == "given": kw["time_values"] = list(range(len(cols)))
    return prep.wide_to_long(w, value_columns=cols, id_column="zz" if "id" in A else "unit", **kw)


def call_balance(A, two, stag, r):
    gap = two.drop(index=[2])
    return prep.balance_panel(gap, "zz" if "unit" in A else "unit", "zz" if "time" in A else "time", method=A.get("method", "inner"))


def call_event(A, two, stag, r):
    return prep.create_event_time(stag, "zz" if "time" in A else "time", "zz" if "treat" in A else "ft")


def call_rank(A, two, stag, r):
    kw = dict(pre_periods=[88, 99] if "pre" in A else [0, 1, 2])
    for k in ("outcome_weight", "covariate_weight"):
        if k in A: kw[k] = {"above_one": 1.2, "negative": -0.1}[A[k]]
    t = A.get("treated")
    treated = [int(u) for u in two.loc[two.d == 1, "unit"].unique()]
    controls = [int(u) for u in two.loc[two.d == 0, "unit"].unique()]
    if t != "none":
        if t in ("both", "units"): kw["treated_units"] = treated
        if t != "units": kw["treatment_column"] = "d"
    if "covariates" in A: kw["covariates"] = [{"unknown": "zz"}.get(A["covariates"], A["covariates"])]
    v = A.get("units")
    if v in ("required_and_excluded", "required"): kw["require_units"] = controls[:1]
    if v == "required_and_excluded": kw["exclude_units"] = controls[:1]
    if v == "all_excluded": kw["exclude_units"] = controls
    return prep.rank_control_units(two, "unit", "time", "y", **kw)


def call_dgp_stag(A, two, stag, r):
    return prep_dgp.generate_staggered_data(n_units=12, n_periods=5, cohort_periods={"zero": [0, 2], "beyond": [2, 5], "inside": [1, 4]}.get(A.get("cohorts"), [2, 3]), seed=1)


def call_dgp_factor(A, two, stag, r):
    return prep_dgp.generate_factor_data(n_units=8, n_pre=4, n_post=2, n_treated={"above": 9, "zero": 0, "one": 1}.get(A.get("n_treated"), 3), n_factors=1, seed=1)


def call_dgp_panel(A, two, stag, r):
    return prep_dgp.generate_panel_data(n_units=8, n_periods=5, treatment_period={"zero": 0, "beyond": 5, "one": 1}.get(A.get("period"), 2), seed=1)


def call_ols(A, two, stag, r):
    n = 12
    X = np.column_stack([np.ones(n), [r.randint(-4, 4) + 0.25 * i for i in range(n)], [r.randint(-3, 3) for _ in range(n)]])
    y = np.array([float(r.randint(-5, 5)) for _ in range(n)])
    if A.get("X") == "wide": X = np.column_stack([X] + [np.arange(n) ** k for k in range(2, 13)]).astype(float)
    if A.get("X") == "inf": X[4, 1] = np.inf
    if A.get("X") == "collinear": X[:, 2] = 2 * X[:, 1]
    if A.get("y") == "nan": y[3] = np.nan
    if A.get("y") == "short": y = y[:-1]
    if A.get("y") == "deep": y = y[:, None]
    if A.get("X") == "flat": X = X[:, 1]
    kw = {}
    if "cluster" in A: kw["cluster_ids"] = np.zeros(n) if A["cluster"] == "single" else np.arange(n) % 2
    return linalg.solve_ols(X, y, rank_deficient_action=A.get("action", "silent"), **kw)


def call_dataset(A, two, stag, r):
    from diff_diff import datasets
    return datasets.load_dataset("zz") if A else datasets.list_datasets()


def call_saframe(A, two, stag, r):
    return dd.SunAbraham(rank_deficient_action="silent").fit(stag, "y", "unit", "time", "ft").to_dataframe(level=A.get("level", "event_study"))


def call_csframe(A, two, stag, r):
    v = {"not_computed": "group"}.get(A.get("level"), A.get("level", "event_study"))
    return dd.CallawaySantAnna(estimation_method="reg").fit(stag, "y", "unit", "time", "ft", aggregate="event_study").to_dataframe(level=v)


CALLS = {"did": call_did, "did.args": call_did_args, "mp": call_mp, "cs": call_cs, "sa": call_sa, "sdid": call_sdid, "td": call_td, "trop": call_trop, "bacon": call_bacon, "honest": call_honest,
         "pretrends": call_pretrends, "power": call_power, "placebo": call_placebo, "treatment_indicator": call_treat, "post_indicator": call_post, "wide_to_long": call_wide, "balance_panel": call_balance,
         "event_time": call_event, "rank": call_rank, "dgp.staggered": call_dgp_stag, "dgp.factor": call_dgp_factor, "dgp.panel": call_dgp_panel, "ols": call_ols, "dataset": call_dataset,
         "sa.frame": call_saframe, "cs.frame": call_csframe}


def args_record(c):
    r, two, stag = world(c["seed"])
    out = []
    for s in c["argsets"]:
        t2, s2 = two.copy(), stag.copy()
        q = Quiet()
        q(CALLS[c["run"]], dict(map(tuple, s)), t2, s2, r)
        out.append({"form": "args", "run": c["run"], "args": s, "raised": q.raised, "msg": (q.msg or "")[:80], "pure": same_frame(t2, two) and same_frame(s2, stag)})
    return out
