import copy
import dataclasses
import pickle
import random
import warnings
import numpy as np
import pandas as pd
import diff_diff as dd
import vh
from du import *

SPEC = "P23_Lifecycle"
RULE = ("histories of set_params, fits, failing fits, clones, copies and reads enumerated by TLC from the lifecycle model and longer random ones, replayed on every estimator class; "
        "every result is compared with those of fresh objects; non-trivial when a fit succeeded")

BASE = dict(robust=True, cluster=None, alpha=0.05, inference="analytical", n_bootstrap=19, bootstrap_weights="rademacher", seed=None, rank_deficient_action="silent")
WILD = dict(BASE, cluster="unit", inference="wild_bootstrap", seed=11, bootstrap_weights="webb")
CSB = dict(control_group="never_treated", anticipation=0, estimation_method="reg", alpha=0.05, cluster=None, n_bootstrap=0, bootstrap_weights="rademacher", seed=None, rank_deficient_action="silent", base_period="varying")
SAB = dict(control_group="never_treated", anticipation=0, alpha=0.05, cluster=None, n_bootstrap=0, seed=None, rank_deficient_action="silent")
SDB = dict(lambda_reg=0.0, zeta=1.0, alpha=0.05, variance_method="placebo", n_bootstrap=6, seed=3)
TDB = dict(estimation_method="dr", robust=True, cluster=None, alpha=0.05, pscore_trim=0.01, rank_deficient_action="silent")
TRB = dict(method="twostep", lambda_time_grid=[0.5], lambda_unit_grid=[0.0], lambda_nn_grid=[0.1], max_iter=8, tol=1e-6, alpha=0.05, variance_method="bootstrap", n_bootstrap=2, max_loocv_samples=50, seed=2)
EST = {
    "DifferenceInDifferences": [BASE, dict(BASE, cluster="unit", alpha=0.1, robust=False), WILD],
    "TwoWayFixedEffects": [BASE, dict(BASE, cluster="region", alpha=0.1), WILD],
    "MultiPeriodDiD": [BASE, dict(BASE, robust=False, alpha=0.2), dict(BASE, cluster="unit")],
    "SyntheticDiD": [SDB, dict(SDB, variance_method="bootstrap", alpha=0.1), dict(SDB, zeta=0.25, lambda_reg=0.5, seed=4)],
    "CallawaySantAnna": [CSB, dict(CSB, control_group="not_yet_treated", estimation_method="dr", base_period="universal", alpha=0.1), dict(CSB, n_bootstrap=12, bootstrap_weights="mammen", seed=5, anticipation=1)],
    "SunAbraham": [SAB, dict(SAB, anticipation=1, alpha=0.1), dict(SAB, n_bootstrap=6, seed=5, cluster="region")],
    "TripleDifference": [TDB, dict(TDB, estimation_method="reg", robust=False, alpha=0.1), dict(TDB, estimation_method="ipw", pscore_trim=0.2, cluster="unit")],
    "TROP": [TRB, dict(TRB, method="joint", alpha=0.1, seed=4, lambda_time_grid=[0.0, 0.5]), dict(TRB, variance_method="jackknife", lambda_nn_grid=[float("inf")], lambda_unit_grid=[0.0, 1.0])],
    "BaconDecomposition": [dict(weights="approximate"), dict(weights="exact"), dict(weights="approximate")],
    "HonestDiD": [dict(method="relative_magnitude", M=1.0, alpha=0.05, l_vec=None), dict(method="smoothness", M=0.5, alpha=0.1, l_vec=None), dict(method="combined", M=0.25, alpha=0.05, l_vec=np.array([1.0, 0.0]))],
    "PreTrendsPower": [dict(alpha=0.05, power=0.8, violation_type="linear", violation_weights=None), dict(alpha=0.1, power=0.9, violation_type="constant", violation_weights=None),
                       dict(alpha=0.05, power=0.5, violation_type="custom", violation_weights=np.array([1.0, 3.0, 0.5]))],
}
# values the constructor rejects
INVALID = {"DifferenceInDifferences": [], "TwoWayFixedEffects": [], "MultiPeriodDiD": [], "SyntheticDiD": [{"variance_method": "jack"}],
           "CallawaySantAnna": [{"control_group": "never"}, {"estimation_method": "ols"}, {"bootstrap_weights": "normal"}, {"base_period": "fixed"}, {"rank_deficient_action": "drop"}],
           "SunAbraham": [{"control_group": "never"}, {"rank_deficient_action": "drop"}], "TripleDifference": [{"estimation_method": "ols"}, {"rank_deficient_action": "drop"}],
           "TROP": [{"method": "threestep"}, {"variance_method": "delta"}], "BaconDecomposition": [{"weights": "none"}],
           "HonestDiD": [{"method": "all"}, {"M": -1.0}, {"alpha": 1.5}], "PreTrendsPower": [{"alpha": 0.0}, {"power": 1.0}, {"violation_type": "cubic"}]}
UNKNOWN = [{"bogus": 1}, {"fit": None}, {"results_": None}, {"is_fitted_": True}, {"get_params": 0}, {"__class__": dict}]
NOKEEP = {"HonestDiD", "PreTrendsPower"}


def nontrivial(ev):
    return any(a["op"] == "fit" and not a["raised"] for a in ev["acts"])


def cost(c):
    return 5


def design(tier):
    return [("Lifecycle", "Lifecycle_design.cfg")]


def generate(tier, work):
    return [vh.generate("Lifecycle", "Lifecycle_hist.cfg", work)]


def twin(acts):
    return [dict(a, d=4) if a.get("d") == 2 else a for a in acts]


def cases(tier, rng, scen):
    q = tier == "quick"
    hs = [s for s in scen["Lifecycle"] if any(a["op"] == "fit" for a in s["acts"])]
    names = [n for n in EST if n != "TROP"] * 2 + ["TROP"] * 2
    for i, s in enumerate(rng.sample(hs, 330 if q else 6600)):
        yield {"id": "tlc%d" % i, "est": names[i % len(names)], "acts": twin(s["acts"]) if i % 2 else s["acts"], "seed": "t%d" % i, "first": 1}
    for i in range(66 if q else 1100):
        r = random.Random("P23/%d/%s" % (i, rng.random()))
        acts = []
        for _ in range(r.randint(6, 14)):
            op = r.choice(["set", "set", "fit", "fit", "fit", "fitbad", "setbad", "clone", "copy", "get", "show"])
            acts.append({"op": op, **({"p": r.randint(1, 3)} if op == "set" else {"d": r.randint(1, 4)} if op == "fit" else {})})
        yield {"id": "walk%d" % i, "est": names[i % len(names)], "acts": acts, "seed": "w%d" % i, "first": r.randint(1, 3)}


# ---------------------------------------------------------------- data
def panel(seed, nu=8, T=5, start=3, stag=False):
    r = random.Random("P23d%s" % seed)
    rows = []
    for u in range(nu):
        ft = r.choice([0, 2, 3, 4]) if stag else 0
        if stag:
            ft = [0, 0, 2, 3, 0, 3, 4, 2, 0, 4][u % 10]
        for t in range(T):
            d = int(u % 2)
            rows.append({"unit": u, "time": t, "d": d, "post": int(t >= start), "region": u // 2, "ft": ft if ft < T else 0, "x": dy(r, -2, 2, 4),
                         "dd": int(d and t >= start), "y": dy(r) + 2 * u + t + (3 * d if t >= start else 0), "g": d, "p": (u // 2) % 2})
    return pd.DataFrame(rows)


DATA = {}


def data(est, d):
    """four data sets per estimator with the arguments of their fits; the fourth has the design of the first and other outcomes"""
    k = (est, d)
    if k in DATA:
        return DATA[k]
    cov = ["x"] if d == 3 else None
    n, T = (8, 5) if d != 2 else (10, 4)
    if est == "TROP":
        n, T = [(5, 4), (6, 4), (4, 5), (5, 4)][d - 1]
    df = panel("%s%d" % (est, d), n, T, 2 if d == 2 else T - 2 if est == "TROP" else 3, stag=est in ("CallawaySantAnna", "SunAbraham", "BaconDecomposition"))
    if est == "TROP" and d == 4:
        df.loc[df.index[df.dd == 0][1], "y"] = float("nan")
    posts = sorted(df.loc[df.post == 1, "time"].unique().tolist())
    if est == "DifferenceInDifferences": v = df, dict(outcome="y", treatment="d", time="post", covariates=cov)
    elif est == "TwoWayFixedEffects": v = df, dict(outcome="y", treatment="d", time="post", unit="unit", covariates=cov)
    elif est == "MultiPeriodDiD": v = df, dict(outcome="y", treatment="d", time="time", post_periods=posts, covariates=cov)
    elif est == "SyntheticDiD": v = df, dict(outcome="y", treatment="d", unit="unit", time="time", post_periods=posts)
    elif est == "CallawaySantAnna": v = df, dict(outcome="y", unit="unit", time="time", first_treat="ft", covariates=cov, aggregate=[None, "event_study", "all", None][d - 1])
    elif est == "SunAbraham": v = df, dict(outcome="y", unit="unit", time="time", first_treat="ft", covariates=cov)
    elif est == "TripleDifference": v = df, dict(outcome="y", group="g", partition="p", time="post", covariates=cov)
    elif est == "TROP": v = df, dict(outcome="y", treatment="dd", unit="unit", time="time")
    elif est == "BaconDecomposition": v = df, dict(outcome="y", unit="unit", time="time", first_treat="ft")
    else:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            if est == "PreTrendsPower":
                df = panel("%s%d" % (est, d), 20, 6, 3, stag=True)
                df = df[df.ft.isin([0, 3])].copy()
                df["ft"] = df["ft"].replace(3, 4)
                v = dd.CallawaySantAnna(estimation_method="reg", base_period="universal").fit(df, "y", "unit", "time", "ft", aggregate="event_study"), {}
                DATA[k] = v
                return v
            df = panel("%s%d" % (est, d), 10, 5, 3)
            v = dd.MultiPeriodDiD().fit(df, "y", "d", "time", post_periods=[3, 4], reference_period=0), {}
    DATA[k] = v
    return v


def bad_data(est, r):
    """a fit that must fail"""
    df, kw = data(est, r.randint(1, 3))
    if est in NOKEEP:
        return r.choice([object(), 3.0, "results"]), {}
    df, kw = df.copy(), dict(kw)
    k = "column" if est == "BaconDecomposition" else r.choice(["column", "column", "untreated"])
    if k == "column":
        arg = r.choice([a for a in ("outcome", "treatment", "time", "unit", "first_treat", "group", "partition") if a in kw])
        kw[arg] = "nope"
    else:
        for c in ("d", "dd", "ft", "g"):
            df[c] = 0
    return df, kw


# ---------------------------------------------------------------- comparison of results
def canon(o, depth=0):
    if depth > 8: return "deep"
    if o is None or isinstance(o, (bool, str, bytes)): return repr(o)
    if isinstance(o, (int, float, np.number, np.bool_)): return float(o)
    if isinstance(o, np.ndarray): return ["arr", list(o.shape)] + [canon(x, depth + 1) for x in o.ravel().tolist()]
    if isinstance(o, pd.DataFrame): return ["df", [str(c) for c in o.columns]] + [canon(o[c].tolist(), depth + 1) for c in o.columns]
    if isinstance(o, pd.Series): return ["ser", canon(o.tolist(), depth + 1)]
    if isinstance(o, dict): return ["dict"] + [[str(k), canon(v, depth + 1)] for k, v in o.items()]
    if isinstance(o, (list, tuple)): return ["seq"] + [canon(x, depth + 1) for x in o]
    if isinstance(o, (set, frozenset)): return ["set"] + sorted(str(x) for x in o)
    if dataclasses.is_dataclass(o) or hasattr(o, "__dict__"):
        return [type(o).__name__] + [[k, canon(v, depth + 1)] for k, v in sorted(vars(o).items()) if not k.startswith("_") and not callable(v)]
    return repr(type(o))


def same(a, b):
    if isinstance(a, float) or isinstance(b, float):
        return isinstance(a, float) and isinstance(b, float) and (a == b or (a != a and b != b) or (np.isfinite(a) and np.isfinite(b) and abs(a - b) <= 1e-9 * max(1.0, abs(a), abs(b))))
    if isinstance(a, list):
        return isinstance(b, list) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return a == b


REF = {}


def do_fit(e, dat):
    df, kw = dat
    return e.fit(df, **kw)


def reference(est):
    if est not in REF:
        out = {}
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            for p in (1, 2, 3):
                for d in (1, 2, 3, 4):
                    q = Quiet()
                    res = q(do_fit, getattr(dd, est)(**EST[est][p - 1]), data(est, d))
                    out[(p, d)] = ("raised", q.raised + q.msg) if q.raised else canon(res)
        REF[est] = out
    return REF[est]


def keys(est, res):
    c = canon(res)
    return [[p, d] for (p, d), v in reference(est).items() if same(c, v)]


def which(est, params):
    """configuration these parameters are: 0 none"""
    for p in (1, 2, 3):
        want = EST[est][p - 1]
        if all(same(canon(params.get(k)), canon(v)) for k, v in want.items()) and set(want) <= set(params):
            return p
    return 0


def record(c):
    est = c["est"]
    r = random.Random("P23r" + c["seed"])
    E = getattr(dd, est)
    ref = reference(est)
    cfg = [dict(k) for k in EST[est]]
    # two equal configurations of a class are one
    canonp = {p: which(est, cfg[p - 1]) for p in (1, 2, 3)}
    before = {d: canon(data(est, d)[0]) for d in (1, 2, 3, 4)}
    e = E(**copy.deepcopy(cfg[c["first"] - 1]))
    cur = c["first"]
    out, held = [], []
    for a in c["acts"]:
        a = dict(a)
        op = a["op"]
        if op == "show" and not hasattr(E, "summary"):
            continue
        np.random.seed(r.randrange(10 ** 6))
        if op == "set":
            a["p"] = canonp[a["p"]]
        ev = dict(a, raised="", keys=[], stored=True, par=0, fitted=False, last=[], self=True, same=True)
        q = Quiet()
        if op == "set":
            new = copy.deepcopy(cfg[a["p"] - 1])
            if r.random() < 0.5:      # only what changes
                new = {k: v for k, v in new.items() if not same(canon(v), canon(cfg[cur - 1][k]))}
            if r.random() < 0.3:
                ks = list(new)
                r.shuffle(ks)
                new = {k: new[k] for k in ks}
            ret = q(e.set_params, **new)
            ev["self"] = ret is e
            cur = a["p"]
        elif op == "setbad":
            z = r.random()
            badv = dict(r.choice(INVALID[est]) if INVALID[est] and z < 0.6 else r.choice(UNKNOWN))
            if r.random() < 0.5:
                other = cfg[cur % 3]
                k = r.choice([k for k in other if k not in badv])if any(k not in badv for k in other) else None
                if k:
                    badv = {k: copy.deepcopy(other[k]), **badv} if r.random() < 0.7 else {**badv, k: copy.deepcopy(other[k])}
            q(lambda: e.set_params(**badv))
        elif op == "fit":
            res = q(do_fit, e, data(est, a["d"]))
            if ref[(cur, a["d"])][0] == "raised":
                continue
            if not q.raised:
                ev["keys"] = keys(est, res)
                ev["stored"] = est in NOKEEP or e.results_ is res
                held.append((res, canon(res)))
        elif op == "fitbad":
            q(do_fit, e, bad_data(est, r))
        elif op == "clone":
            def mk():
                with warnings.catch_warnings():
                    warnings.simplefilter("ignore")
                    return E(**e.get_params())
            n = q(mk)
            e = n if n is not None else e
        elif op == "copy":
            n = q(copy.deepcopy, e) if r.random() < 0.5 else q(lambda: pickle.loads(pickle.dumps(e)))
            e = n if n is not None else e
        elif op == "get":
            q(e.get_params)
        elif op == "show":
            s = q(e.summary)
            ev["same"] = bool(not q.raised and s == e.results_.summary())
        ev["raised"] = q.raised
        ev["par"] = which(est, e.get_params())
        if est not in NOKEEP:
            ev["fitted"] = bool(e.is_fitted_)
            ev["last"] = keys(est, e.results_) if e.results_ is not None else []
        out.append(ev)
    if not out:
        return []
    kept = all(same(canon(res), snap) for res, snap in held)
    pure = all(same(canon(data(est, d)[0]), before[d]) for d in (1, 2, 3, 4))
    return [{"est": est, "first": canonp[c["first"]], "acts": out, "keeps": est not in NOKEEP, "kept": bool(kept), "pure": bool(pure)}]
