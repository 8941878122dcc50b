"""event-study sources (fitted and hand-made) shared by P15 and P16"""
import random
import numpy as np
import pandas as pd
from diff_diff import CallawaySantAnna, MultiPeriodDiD, SunAbraham
from diff_diff.results import MultiPeriodDiDResults, PeriodEffect
from diff_diff.staggered import CallawaySantAnnaResults
from du import *


def make(kind, r):
    """a JSON-able recipe of an event study"""
    if kind == "stag":
        nt = r.randint(3, 6)
        nu = r.randint(4, 9)
        cls = [0, 0] + [r.randint(2, nt) for _ in range(nu - 2)]
        eff = r.choice([0, 2, 6])
        y = [[dy(r, -2, 2, 4) + (eff if c and t >= c else 0) for t in range(1, nt + 1)] for c in cls]
        return {"kind": "stag", "cls": cls, "y": y, "base": r.choice(["varying", "universal"]), "agg": "event_study" if r.random() < 0.95 else None,
                "a": r.choice([0, 0, 0, 1]), "est": "cs"}
    if kind == "stagmock":
        ev = []
        for e in sorted(r.sample(range(-4, 4), r.randint(1, 8)), key=lambda _: r.random()):
            ev.append([e, r.randint(0, 2) if r.random() < 0.3 else 1, dy(r, -6, 6, 4), float("nan") if r.random() < 0.12 else abs(dy(r, 0, 2, 8)) + 0.125])
        return {"kind": "stagmock", "es": ev, "ose": 0.375}
    nt = r.randint(2, 5)
    nu = r.randint(3, 6)
    d = [1, 0] + [r.randint(0, 1) for _ in range(nu - 2)]
    reps = r.choice([1, 2])
    rows = [(u, t) for u in range(nu) for t in range(nt) for _ in range(reps)]
    eff = r.choice([0, 2, 5])
    off = r.choice([0, 1, 2000])
    npre = r.randint(1, nt - 1)
    if kind == "multi":
        return {"kind": "multi", "rows": [[u, t + off, d[u], dy(r, -2, 2, 4) + (eff if d[u] and t >= npre else 0)] for u, t in rows],
                "post": [off + t for t in range(npre, nt)], "tname": r.choice(["treated", "D", "treated", "tr"]), "cov": r.random() < 0.3,
                "cluster": r.random() < 0.3, "robust": r.random() < 0.7}
    if kind == "allpost":                    # the event study in which every period but one is estimated
        ref = r.randrange(nt)
        return {"kind": "multi", "rows": [[u, t + off, d[u], dy(r, -2, 2, 4) + (eff if d[u] and t >= npre else 0)] for u, t in rows],
                "post": [off + t for t in range(nt) if t != ref], "ref": off + ref, "tname": r.choice(["treated", "D", "treated", "tr"]), "cov": r.random() < 0.3,
                "cluster": False, "robust": r.random() < 0.7}
    m = r.randint(1, 4)
    A = [[dy(r, -1, 1, 2) for _ in range(m)] for _ in range(m)]
    V = [[sum(A[k][i] * A[k][j] for k in range(m)) + (0.25 if i == j else 0) for j in range(m)] for i in range(m)]
    return {"kind": "multimock", "eff": [dy(r, -6, 6, 4) for _ in range(m)], "se": [abs(dy(r, 0, 2, 8)) + 0.125 for _ in range(m)],
            "V": V if r.random() < 0.6 else None, "npre": r.randint(1, 3), "ose": 0.75}


def results(s):
    """the results object, or None when the recipe cannot be fitted"""
    q = Quiet()
    if s["kind"] == "stag":
        rows = [(u, t + 1, y, s["cls"][u]) for u, ys in enumerate(s["y"]) for t, y in enumerate(ys)]
        df = pd.DataFrame(rows, columns=["id", "t", "y", "g"])
        if s["est"] == "cs":
            return q(CallawaySantAnna(base_period=s["base"], anticipation=s["a"], rank_deficient_action="silent").fit, df, "y", "id", "t", "g", aggregate=s["agg"])
        return q(SunAbraham(anticipation=s["a"], rank_deficient_action="silent").fit, df, outcome="y", unit="id", time="t", first_treat="g")
    if s["kind"] == "stagmock":
        es = {e: {"effect": b, "se": se, "t_stat": 0.0, "p_value": 1.0, "conf_int": (0.0, 0.0), "n_groups": n} for e, n, b, se in s["es"]}
        return CallawaySantAnnaResults(group_time_effects={}, overall_att=1.0, overall_se=s["ose"], overall_t_stat=1.0, overall_p_value=0.5, overall_conf_int=(0.0, 1.0),
                                       groups=[1], time_periods=[1, 2], n_obs=4, n_treated_units=1, n_control_units=1, event_study_effects=es)
    if s["kind"] == "multi":
        df = pd.DataFrame(s["rows"], columns=["u", "t", s["tname"], "y"])
        cov = None
        if s["cov"]:
            df["x"] = [(7 * i + 3) % 5 for i in range(len(df))]
            cov = ["x"]
        return q(MultiPeriodDiD(robust=s["robust"], cluster="u" if s["cluster"] else None, rank_deficient_action="silent").fit, df, outcome="y", treatment=s["tname"], time="t",
                 post_periods=s["post"], covariates=cov, reference_period=s.get("ref"))
    per = {10 + i: PeriodEffect(period=10 + i, effect=e, se=se, t_stat=1.0, p_value=0.5, conf_int=(0.0, 0.0)) for i, (e, se) in enumerate(zip(s["eff"], s["se"]))}
    return MultiPeriodDiDResults(period_effects=per, avg_att=1.0, avg_se=s["ose"], avg_t_stat=1.0, avg_p_value=0.5, avg_conf_int=(0.0, 0.0), n_obs=9, n_treated=4, n_control=5,
                                 pre_periods=list(range(10 - s["npre"], 10)), post_periods=list(per), vcov=None if s["V"] is None else np.array(s["V"]))


def view(s, r):
    """what the specification is told about the study"""
    if s["kind"] in ("stag", "stagmock"):
        es = r.event_study_effects
        return {"kind": "stag", "has": es is not None, "overallse": fl(getattr(r, "overall_se", float("nan"))),
                "es": [] if es is None else [{"e": int(e), "n": int(v.get("n_groups", 1)), "eff": fl(v["effect"]), "se": fl(v["se"])} for e, v in es.items()]}
    names = list(r.coefficients or {})
    block = []
    if r.vcov is not None and len(names) == len(r.vcov):
        block = [names.index("%s:period_%s" % (s["tname"], p)) + 1 for p in r.post_periods]
    return {"kind": "multi", "has": True, "overallse": fl(r.avg_se), "npre": len(r.pre_periods), "pre": [],
            "post": [{"p": int(p), "eff": fl(r.period_effects[p].effect), "se": fl(r.period_effects[p].se)} for p in r.post_periods],
            "vcov": [] if r.vcov is None else mat(r.vcov), "block": block}
