"""One table of whole analyses, used by the properties about how answers change with the presentation (P24) and
the units and origin (P25) of the data, and about the coherence and reporting of results (P05, P27).

RUNS[name] = (kind of data, function(df, W, opts) -> result objects, traits)
Each analysis returns a list of outputs {k: key in base labels, role, d: multiples of a constant effect added, rs: resampled, v}
rank: steps with ties (permutation p-values), flag: not compared
roles: eff (moves with the outcome), se, t, p, ci [lo, hi], n (count or label), w (weight or share), lev (level of the outcome), q (scale-free number), seq
"""
import random
import numpy as np
import pandas as pd
import diff_diff as dd
from diff_diff import diagnostics, prep, utils
from du import *

COLS = ["unit", "time", "y", "x", "d", "post", "ft", "region", "part", "dp", "late"]


class World:
    """column names and the maps from shown labels back to base labels"""

    def __init__(self, names=None, unit=None, time=None, never=0):
        self.n = {c: c for c in COLS}
        self.n.update(names or {})
        self.uinv = {v: k for k, v in (unit or {}).items()}
        self.tmap = dict(time or {})
        self.tinv = {v: k for k, v in self.tmap.items()}

    def __getattr__(self, c):
        return self.n[c]

    def t(self, v):      # shown label of a base period
        return self.tmap.get(v, v)

    def bt(self, v):     # base period of a shown label
        v = v.item() if hasattr(v, "item") else v
        if v in self.tinv: return self.tinv[v]
        return int(v) if isinstance(v, float) and v == int(v) else v

    def bu(self, v):
        v = v.item() if hasattr(v, "item") else v
        return self.uinv.get(v, int(v) if isinstance(v, (int, float)) and not isinstance(v, bool) else v)


def base(kind, seed, **o):
    """kind: two (treated/control, common adoption) or stag; balanced unless gaps"""
    r = random.Random("runs/%s/%s" % (kind, seed))
    nu, T = o.get("nu") or r.randint(8, 11), o.get("T") or r.randint(4, 6)
    start = o.get("start") or r.randint(2, T - 2)
    integer = o.get("integer", False)
    c0 = o.get("mincoh", 1)
    coh = [0, 0, start, 0] + [r.choice([0, 1, 2, 3]) for _ in range(nu)]
    if kind == "stag":
        late = r.choice([t for t in range(c0, T) if t != start])
        coh = [0, start, late, 0, start, late, 0] + [r.choice([0, start, late, r.randint(c0, T - 1)]) for _ in range(nu)]
    rows = []
    for u in range(nu):
        d = int(u % 2) if kind == "two" else int(coh[u] > 0)
        ft = (start if d else 0) if kind == "two" else coh[u]
        ue, ux = dy(r, -3, 3, 4), dy(r, -1, 1, 4)
        for t in range(T):
            e = dy(r, -3, 3, 8) + ue + t * 0.5 + (1.5 + 0.25 * t if ft and t >= ft else 0)
            rows.append({"unit": u, "time": t, "y": float(round(4 * e)) if integer else e, "x": dy(r, -2, 2, 8) if o.get("xvar", True) else ux, "d": d,
                         "post": int(t >= start), "ft": ft, "region": u // 2 % 4, "part": (u // 2) % 2,
                         "dp": int(bool(ft) and t >= ft), "late": int(t >= T - 1)})
    df = pd.DataFrame(rows)
    if o.get("gaps"):
        keep = [True] * len(df)
        for _ in range(o["gaps"]):
            keep[r.randrange(len(df))] = False
        df = df[keep].reset_index(drop=True)
    if o.get("lift"): df["y"] += o["lift"]
    df.attrs.clear()
    return df


# ---------------------------------------------------------------- outputs
def o(k, role, v, d=0, rs=False, g=1.0):
    """g: the standard error behind a t or p value (they say nothing when it is zero up to rounding)"""
    return {"k": str(k), "role": role, "d": int(d), "rs": bool(rs), "v": v, "g": fl(g)}


def pair(c):
    return list(ci(c))


def est(k, x, names, d, rs=False, rp=None, re=False):
    """effect, se, t, p, ci of an object or dict"""
    get = (lambda f: x.get(f, float("nan"))) if isinstance(x, dict) else (lambda f: getattr(x, f))
    rp = rs if rp is None else rp
    se = fl(get(names[1]))
    g = min(abs(fl(get(names[0]))), se) if rp else se
    return [o(k, "eff", fl(get(names[0])), d, rs=re), o(k + ".se", "se", se, rs=rs), o(k + ".t", "t", fl(get(names[2])), rs=rs, g=se),
            o(k + ".p", "rank" if rp else "p", fl(get(names[3])), rs=rp, g=g), o(k + ".ci", "ci", pair(get(names[4])), d, rs=rp, g=se)]


BASIC = ("att", "se", "t_stat", "p_value", "conf_int")
EFF = ("effect", "se", "t_stat", "p_value", "conf_int")


def ns(x, *fields):
    return [o(f, "n", getattr(x, f)) for f in fields]


def out_did(r, W, rs=False):
    return est("att", r, BASIC, 1, rs) + ns(r, "n_obs", "n_treated", "n_control") + [o("r2", "r2", fl(r.r_squared)), o("n_clusters", "n", r.n_clusters)]


def out_mp(r, W):
    out = est("avg", r, ("avg_att", "avg_se", "avg_t_stat", "avg_p_value", "avg_conf_int"), 1) + ns(r, "n_obs", "n_treated", "n_control")
    for p, e in r.period_effects.items():
        out += est("period%s" % W.bt(p), e, EFF, 1)
    return out + [o("r2", "r2", fl(r.r_squared)), o("pre", "n", [W.bt(p) for p in r.pre_periods]), o("post", "n", [W.bt(p) for p in r.post_periods])]


def out_cs(r, W, rs=False):
    out = est("overall", r, ("overall_att", "overall_se", "overall_t_stat", "overall_p_value", "overall_conf_int"), 1, rs)
    out += ns(r, "n_obs", "n_treated_units", "n_control_units") + [o("groups", "n", [W.bt(g) for g in r.groups]), o("periods", "n", [W.bt(t) for t in r.time_periods])]
    for (g, t), e in r.group_time_effects.items():
        out += est("att%s,%s" % (W.bt(g), W.bt(t)), e, EFF, W.bt(t) >= W.bt(g), rs)
    for e, v in (r.event_study_effects or {}).items():
        out += est("event%s" % int(e), v, EFF, e >= 0, rs) + [o("event%s.n" % int(e), "n", v.get("n_groups"))]
    for g, v in (r.group_effects or {}).items():
        out += est("group%s" % W.bt(g), v, EFF, 1, rs) + [o("group%s.n" % W.bt(g), "n", v.get("n_periods"))]
    return out


def out_sa(r, W, rs=False):
    out = est("overall", r, ("overall_att", "overall_se", "overall_t_stat", "overall_p_value", "overall_conf_int"), 1, rs)
    out += ns(r, "n_obs", "n_treated_units", "n_control_units") + [o("groups", "n", [W.bt(g) for g in r.groups]), o("periods", "n", [W.bt(t) for t in r.time_periods])]
    for e, v in r.event_study_effects.items():
        out += est("event%s" % int(e), v, EFF, e >= 0, rs) + [o("event%s.n" % int(e), "n", v.get("n_groups"))]
    for e, ws in r.cohort_weights.items():
        out += [o("w%s,%s" % (int(e), W.bt(g)), "w", fl(w)) for g, w in ws.items()]
    for (g, e), v in (r.cohort_effects or {}).items():
        out += [o("cohort%s,%s" % (W.bt(g), int(e)), "eff", fl(v["effect"]), e >= 0), o("cohort%s,%s.se" % (W.bt(g), int(e)), "se", fl(v["se"]))]
    return out


def out_sdid(r, W):
    out = est("att", r, BASIC, 1, True) + ns(r, "n_obs", "n_treated", "n_control")
    out += [o("uw%s" % W.bu(u), "w", fl(w)) for u, w in r.unit_weights.items()] + [o("tw%s" % W.bt(t), "w", fl(w)) for t, w in r.time_weights.items()]
    return out + [o("fit", "se", fl(r.pre_treatment_fit)), o("pre", "n", [W.bt(p) for p in r.pre_periods]), o("post", "n", [W.bt(p) for p in r.post_periods])]


def out_td(r, W):
    out = est("att", r, BASIC, 1) + ns(r, "n_obs", "n_treated_eligible", "n_treated_ineligible", "n_control_eligible", "n_control_ineligible", "n_clusters")
    out += [o("mean." + k, "lev", fl(v["mean"] if isinstance(v, dict) else v), k.startswith("Treated") and "Eligible" in k and "Post" in k) for k, v in (r.group_means or {}).items()] if False else []
    return out + [o("r2", "r2", fl(r.r_squared))]


def out_trop(r, W):
    out = est("att", r, BASIC, 1, True) + ns(r, "n_obs", "n_treated", "n_control", "n_treated_obs", "n_pre_periods", "n_post_periods")
    out += [o("tau%s,%s" % (W.bu(u), W.bt(t)), "eff", fl(v), 1) for (u, t), v in r.treatment_effects.items()]
    return out + [o(f, "w", fl(getattr(r, f))) for f in ("lambda_time", "lambda_unit", "lambda_nn")] + [o("loocv", "var", fl(r.loocv_score))]


def out_bacon(r, W):
    out = [o("twfe", "eff", fl(r.twfe_estimate), 1), o("error", "se", fl(r.decomposition_error))] + ns(r, "n_timing_groups", "n_never_treated", "n_obs")
    for t in ("treated_vs_never", "earlier_vs_later", "later_vs_earlier"):
        out += [o("W." + t, "w", fl(getattr(r, "total_weight_" + t))), o("A." + t, "eff", fl(getattr(r, "weighted_avg_" + t)), 1)]
    for c in r.comparisons:
        k = "%s:%s:%s" % (c.comparison_type, W.bt(c.treated_group), c.control_group if isinstance(c.control_group, str) else W.bt(c.control_group))
        out += [o(k, "eff", fl(c.estimate), 1), o(k + ".w", "w", fl(c.weight)), o(k + ".n", "n", [c.n_treated, c.n_control])]
    return out + [o("groups", "n", [W.bt(g) for g in r.timing_groups])]


def out_honest(r, W, k=""):
    return [o(k + "set", "ci", [fl(r.lb), fl(r.ub)], 1), o(k + "ci", "ci", [fl(r.ci_lb), fl(r.ci_ub)], 1), o(k + "orig", "eff", fl(r.original_estimate), 1), o(k + "origse", "se", fl(r.original_se))]


def out_placebo(r, W, d=0, rs=False):
    out = est("placebo", r, ("placebo_effect", "se", "t_stat", "p_value", "conf_int"), d, rs, re=rs)
    out += [o("n_obs", "n", r.n_obs), o("sig", "p" if not rs else "flag", float(r.is_significant), rs=rs, g=r.se)]
    if r.original_effect is not None:
        out += [o("orig", "eff", fl(r.original_effect), 1)]
    for u, v in (r.leave_one_out_effects or {}).items():
        out += [o("loo%s" % W.bu(u), "eff", fl(v), 1)]
    if r.permutation_distribution is not None and rs:
        out += [o("dist%d" % i, "eff", fl(v), rs=True) for i, v in enumerate(r.permutation_distribution)]
    return out


# ---------------------------------------------------------------- analyses
R = {}


def run(name, kind, **traits):
    def deco(f):
        R[name] = dict(f=f, kind=kind, **traits)
        return f
    return deco


SIL = dict(rank_deficient_action="silent")
AL = {}      # {"alpha": a} while another significance level is asked for (P05)


def _did(opts, cls=dd.DifferenceInDifferences, **fitkw):
    def f(df, W, keep=None):
        kw = {k: (v(W) if callable(v) else v) for k, v in fitkw.items()}
        ok = {k: (v(W) if callable(v) else v) for k, v in opts.items()}
        r = cls(**SIL, **AL, **ok).fit(df, W.y, W.d, W.post, **kw)
        if keep is not None: keep.append(r)
        return out_did(r, W, opts.get("inference") == "wild_bootstrap")
    return f


X = lambda W: [W.x]
# traits: inv = additions to the outcome that leave effects (e) or effects and standard errors (E) unchanged: unit, time; cov: an affine covariate change leaves it; c: constant added effect passes through
run("did", "two", unit="e", time="", tau=1, binary=1)(_did({}))
run("did.cov", "two", tau=1, cov=1, binary=1)(_did({}, covariates=X))
run("did.hom", "two", unit="e", tau=1, binary=1)(_did({"robust": False}))
run("did.cluster", "two", unit="e", tau=1, gapsok=1, binary=1)(_did({"cluster": lambda W: W.unit}))
run("did.fe", "two", tau=1, gapsok=1, cov=1, binary=1)(_did({}, covariates=X, fixed_effects=lambda W: [W.region]))
run("did.absorb", "two", tau=1, cov=1, binary=1)(_did({}, covariates=X, absorb=lambda W: [W.unit]))
run("did.wild", "two", tau=1, rs=1, binary=1)(_did({"inference": "wild_bootstrap", "cluster": lambda W: W.unit, "n_bootstrap": 39, "seed": 4}))
run("twfe", "two", unit="E", time="E", timecol="post", tau=0, binary=1, panel=1)(_did({}, dd.TwoWayFixedEffects, unit=lambda W: W.unit))
run("twfe.cov", "two", unit="E", time="E", timecol="post", tau=0, cov=1, gapsok=1, binary=1, panel=1)(_did({}, dd.TwoWayFixedEffects, unit=lambda W: W.unit, covariates=X))
run("twfe.cluster", "two", unit="E", time="E", timecol="post", tau=0, binary=1, panel=1)(_did({"cluster": lambda W: W.region}, dd.TwoWayFixedEffects, unit=lambda W: W.unit))
run("twfe.wild", "two", unit="E", time="E", timecol="post", tau=0, rs=1, binary=1, panel=1)(_did({"inference": "wild_bootstrap", "n_bootstrap": 39, "seed": 4, "bootstrap_weights": "webb"}, dd.TwoWayFixedEffects, unit=lambda W: W.unit))


def _mp(opts, **fitkw):
    def f(df, W, keep=None):
        kw = {k: (v(W) if callable(v) else v) for k, v in fitkw.items()}
        ok = {k: (v(W) if callable(v) else v) for k, v in opts.items()}
        st = R["_start"]
        r = dd.MultiPeriodDiD(**SIL, **AL, **ok).fit(df, W.y, W.d, W.time, post_periods=[W.t(t) for t in st["posts"]], reference_period=W.t(st["ref"]), **kw)
        if keep is not None: keep.append(r)
        return out_mp(r, W)
    return f


run("mp", "two", unit="e", time="E", tau=1, gapsok=1, timemap="any")(_mp({}))
run("mp.cov", "two", time="E", tau=1, cov=1, gapsok=1, timemap="any")(_mp({}, covariates=X))
run("mp.cluster", "two", unit="e", time="E", tau=1, timemap="any")(_mp({"cluster": lambda W: W.unit}))
run("mp.fe", "two", unit="e", time="E", tau=1, timemap="any")(_mp({"robust": False}, fixed_effects=lambda W: [W.region]))
run("mp.absorb", "two", unit="e", time="E", tau=1, timemap="any")(_mp({}, absorb=lambda W: [W.unit]))


def _cs(agg="all", cov=False, bal=None, **opts):
    def f(df, W, keep=None):
        r = dd.CallawaySantAnna(**SIL, **AL, **opts).fit(df, W.y, W.unit, W.time, W.ft, covariates=[W.x] if cov else None, aggregate=agg, balance_e=bal)
        if keep is not None: keep.append(r)
        return out_cs(r, W, bool(opts.get("n_bootstrap")))
    return f


CS = dict(unit="E", time="E", gapsok=1, timemap="shift", panel=1)
run("cs.reg", "stag", tau=1, **CS)(_cs(estimation_method="reg"))
run("cs.reg.nyt", "stag", tau=1, **CS)(_cs(estimation_method="reg", control_group="not_yet_treated"))
run("cs.dr.cov", "stag", tau=1, cov=2, loose=1, xfix=1, **CS)(_cs(estimation_method="dr", cov=True))
run("cs.ipw", "stag", tau=1, **CS)(_cs(estimation_method="ipw", base_period="universal"))
run("cs.ipw.cov", "stag", tau=1, cov=2, loose=1, xfix=1, **CS)(_cs(estimation_method="ipw", cov=True))
run("cs.reg.cov", "stag", tau=1, cov=1, xfix=1, **CS)(_cs(estimation_method="reg", cov=True))
run("cs.ant", "stag", tau=0, ant=1, **CS)(_cs(estimation_method="dr", anticipation=1, control_group="not_yet_treated"))
run("cs.bal", "stag", tau=1, **CS)(_cs(agg="event_study", bal=0, estimation_method="reg"))
run("cs.boot", "stag", tau=1, rs=1, **CS)(_cs(estimation_method="reg", n_bootstrap=25, bootstrap_weights="mammen", seed=3))
run("cs.boot.webb", "stag", tau=1, rs=1, **CS)(_cs(estimation_method="dr", n_bootstrap=25, bootstrap_weights="webb", seed=3, control_group="not_yet_treated"))


def _sa(cov=False, **opts):
    def f(df, W, keep=None):
        ok = {k: (v(W) if callable(v) else v) for k, v in opts.items()}
        r = dd.SunAbraham(**SIL, **AL, **ok).fit(df, W.y, W.unit, W.time, W.ft, covariates=[W.x] if cov else None)
        if keep is not None: keep.append(r)
        return out_sa(r, W, bool(opts.get("n_bootstrap")))
    return f


# without gaps: a cohort effect that is not estimable is one of several collinear columns, which of them is left out is not defined
SA = dict(unit="E", time="E", timemap="shift", panel=1)
run("sa", "stag", tau=1, **SA)(_sa())
run("sa.cov", "stag", tau=1, cov=1, **SA)(_sa(cov=True))
run("sa.cluster", "stag", tau=1, **SA)(_sa(cluster=lambda W: W.region))
run("sa.ant", "stag", tau=0, ant=1, **SA)(_sa(anticipation=1))
run("sa.boot", "stag", tau=1, rs=1, **SA)(_sa(n_bootstrap=8, seed=5))


def _bacon(w):
    def f(df, W, keep=None):
        r = dd.BaconDecomposition(weights=w).fit(df, W.y, W.unit, W.time, W.ft)
        if keep is not None: keep.append(r)
        return out_bacon(r, W)
    return f


run("bacon", "stag", unit="E", time="E", tau=1, timemap="shift", panel=1)(_bacon("approximate"))
run("bacon.exact", "stag", unit="E", time="E", tau=1, timemap="shift", panel=1)(_bacon("exact"))


def _td(m, cov=True, **opts):
    def f(df, W, keep=None):
        ok = {k: (v(W) if callable(v) else v) for k, v in opts.items()}
        r = dd.TripleDifference(estimation_method=m, **SIL, **AL, **ok).fit(df, W.y, W.d, W.part, W.post, covariates=[W.x] if cov else None)
        if keep is not None: keep.append(r)
        return out_td(r, W)
    return f


run("td.reg", "two", tau=1, cov=1, gapsok=1, binary=1, big=1)(_td("reg"))
run("td.ipw", "two", tau=1, cov=2, loose=1, gapsok=1, binary=1, big=1)(_td("ipw"))
run("td.dr", "two", tau=1, cov=2, loose=1, gapsok=1, binary=1, big=1)(_td("dr"))
run("td.dr.nocov", "two", unit="", tau=1, binary=1, big=1)(_td("dr", cov=False, cluster=lambda W: W.unit))
run("td.reg.hom", "two", tau=1, cov=1, binary=1, big=1)(_td("reg", robust=False))


def _sdid(cov=False, **opts):
    def f(df, W, keep=None):
        st = R["_start"]
        r = dd.SyntheticDiD(n_bootstrap=7, seed=2, **AL, **opts).fit(df, W.y, W.d, W.unit, W.time, post_periods=[W.t(t) for t in st["posts"]], covariates=[W.x] if cov else None)
        if keep is not None: keep.append(r)
        return out_sdid(r, W)
    return f


SD = dict(tau=1, loose=1, timemap="any", rs=1, panel=1)
run("sdid.placebo", "two", time="E", **SD)(_sdid(variance_method="placebo"))
run("sdid.boot", "two", time="E", **SD)(_sdid(variance_method="bootstrap"))
run("sdid.reg", "two", noscale=1, **SD)(_sdid(variance_method="placebo", lambda_reg=0.5, zeta=0.5))
run("sdid.cov", "two", cov=1, **dict(SD, tau=0))(_sdid(cov=True, variance_method="placebo"))


def _trop(**opts):
    def f(df, W, keep=None):
        r = dd.TROP(max_iter=30, tol=1e-8, n_bootstrap=3, max_loocv_samples=1000, seed=2, **AL, **opts).fit(df, W.y, W.dp, W.unit, W.time)
        if keep is not None: keep.append(r)
        return out_trop(r, W)
    return f


TR = dict(tau=1, loose=1, timemap="shift", rs=1, panel=1, small=1)
INF = float("inf")
run("trop", "two", unit="", time="", noscale=1, **TR)(_trop(lambda_time_grid=[0.0, 0.5], lambda_unit_grid=[0.5], lambda_nn_grid=[0.1]))
run("trop.dim", "two", unit="E", time="E", **TR)(_trop(lambda_time_grid=[0.25], lambda_unit_grid=[0.0], lambda_nn_grid=[INF]))
run("trop.joint", "two", noscale=1, **TR)(_trop(method="joint", lambda_time_grid=[0.0, 0.5], lambda_unit_grid=[0.0], lambda_nn_grid=[INF], variance_method="jackknife"))
run("trop.joint.nn", "two", noscale=1, **TR)(_trop(method="joint", lambda_time_grid=[0.1], lambda_unit_grid=[0.2], lambda_nn_grid=[0.2], variance_method="jackknife"))


def _honest(src):
    def f(df, W, keep=None):
        kk = []
        (R["mp.cluster"]["f"] if src == "mp" else R["cs.reg"]["f"])(df, W, kk)
        out = []
        for m, M in (("relative_magnitude", 0.0), ("relative_magnitude", 0.5), ("relative_magnitude", 1.0)):
            r = dd.HonestDiD(method=m, M=M, **AL).fit(kk[0])
            if keep is not None: keep.append(r)
            out += out_honest(r, W, "%s%s." % (m[:2], M))
        return out
    return f


run("honest.mp", "two", time="E", tau=1, timemap="any", unit="e")(_honest("mp"))
run("honest.cs", "stag", tau=0, **CS)(_honest("cs"))


def _pre(df, W, keep=None):
    kk = []
    _cs(estimation_method="reg", base_period="universal", agg="event_study")(df, W, kk)
    out = []
    for v in ("linear", "constant", "last_period"):
        p = dd.PreTrendsPower(violation_type=v, **AL)
        r = p.fit(kk[0])
        if keep is not None: keep.append(r)
        out += [o(v + ".mdv", "se", fl(r.mdv)), o(v + ".n", "n", r.n_pre_periods), o(v + ".test", "p", fl(r.test_statistic)), o(v + ".crit", "p", fl(r.critical_value))]
    return out


run("pretrends", "stag", unit="E", time="E", tau=1, loose=1, timemap="shift", panel=1)(_pre)


def _placebo(t, d=0, **kw):
    def f(df, W, keep=None):
        st = R["_start"]
        a = {k: (v(W) if callable(v) else v) for k, v in kw.items()}
        if t == "fake_timing": a["fake_treatment_period"] = W.t(st["fake"])
        if t in ("fake_timing", "fake_group"): a["post_periods"] = [W.t(x) for x in st["posts"]]
        timecol = W.time if t in ("fake_timing", "fake_group") else W.post
        r = dd.run_placebo_test(df, W.y, W.d, timecol, test_type=t, unit=W.unit, **AL, **a)
        if keep is not None: keep.append(r)
        return out_placebo(r, W, d, t == "permutation")
    return f


run("placebo.timing", "two", unit="e", tau=1, timemap="any", nopost=1)(_placebo("fake_timing"))
run("placebo.group", "two", tau=0, timemap="any", unitfixed=1)(lambda df, W, keep=None: _placebo("fake_group", fake_treatment_group=[u for u in df[W.unit].unique() if W.bu(u) in (0, 4)])(df, W, keep))
run("placebo.perm", "two", tau=0, rs=1, panel=1, binary=1, unit="")(_placebo("permutation", n_permutations=19, seed=5))
run("placebo.loo", "two", unit="", tau=1, panel=1, binary=1, dloo=1)(_placebo("leave_one_out", d=1))


def _pt(df, W, keep=None):
    st = R["_start"]
    r = utils.check_parallel_trends(df, W.y, W.time, W.d, [W.t(t) for t in st["pres"]])
    return [o(k, {"treated_trend": "eff", "control_trend": "eff", "trend_difference": "eff", "treated_trend_se": "se", "control_trend_se": "se", "trend_difference_se": "se"}.get(k, "t" if k == "t_statistic" else "p" if k == "p_value" else "n"), fl(v) if not isinstance(v, (bool, np.bool_, type(None))) else str(v)) for k, v in r.items()]


run("pt.slopes", "two", timemap="shift", gapsok=1, nopost=1, unit="e")(_pt)


def _ptr(df, W, keep=None):
    st = R["_start"]
    r = utils.check_parallel_trends_robust(df, W.y, W.time, W.d, unit=W.unit, pre_periods=[W.t(t) for t in st["pres"]], n_permutations=29, seed=6)
    roles = {"wasserstein_distance": "se", "wasserstein_normalized": "p", "wasserstein_p_value": "rank", "ks_statistic": "rank", "ks_p_value": "rank", "mean_difference": "eff", "variance_ratio": "p", "treated_changes": "", "control_changes": ""}
    return [o(k, roles.get(k, "n"), fl(v) if not isinstance(v, (bool, np.bool_, type(None))) else str(v), rs=k in ("wasserstein_p_value", "parallel_trends_plausible")) for k, v in r.items() if roles.get(k, "n") and not isinstance(v, (list, np.ndarray))]


run("pt.robust", "two", timemap="any", gapsok=1, rs=1, unit="E", nopost=1, panel=1, time="")(_ptr)


def _pte(df, W, keep=None):
    st = R["_start"]
    r = utils.equivalence_test_trends(df, W.y, W.time, W.d, unit=W.unit, pre_periods=[W.t(t) for t in st["pres"]])
    roles = {"mean_difference": "eff", "se_difference": "se", "equivalence_margin": "se", "lower_t_stat": "", "upper_t_stat": "", "lower_p_value": "", "upper_p_value": "", "tost_p_value": "p", "degrees_of_freedom": "p"}
    return [o(k, roles.get(k, "n"), fl(v) if not isinstance(v, (bool, np.bool_, type(None))) else str(v)) for k, v in r.items() if roles.get(k, "n")]


run("pt.equiv", "two", timemap="any", gapsok=1, unit="E", nopost=1, panel=1)(_pte)


def _rank(df, W, keep=None):
    st = R["_start"]
    r = prep.rank_control_units(df, W.unit, W.time, W.y, treatment_column=W.d, pre_periods=[W.t(t) for t in st["pres"]])
    out = []
    for i in range(len(r)):
        row = r.iloc[i]
        for c in ("quality_score", "outcome_trend_score", "covariate_score", "synthetic_weight", "pre_trend_rmse"):
            if c in r.columns:
                out.append(o("%s.%s" % (W.bu(row[W.n["unit"]] if W.n["unit"] in r.columns else row["unit"]), c), "se" if c == "pre_trend_rmse" else "w", fl(row[c])))
    return out


run("rank", "two", timemap="any", gapsok=0, nopost=1, loose=1, panel=1, noaff=1)(_rank)


def _candidates(df, W, keep=None):
    from diff_diff import prep as p
    ok = df[W.post] == 0
    r = p.rank_control_units(df[ok], W.unit, W.time, W.y, treated_units=[u for u in df[W.unit].unique() if W.bu(u) in (1,)], covariates=[W.x])
    return [o("%s.%s" % (W.bu(r.iloc[i]["unit"]), c), "w", fl(r.iloc[i][c])) for i in range(len(r)) for c in ("quality_score", "covariate_score") if c in r.columns]


def setup(df):
    """facts about the base data that the analyses ask for"""
    T = sorted(df["time"].unique())
    posts = sorted(df.loc[df.post == 1, "time"].unique())
    pres = [t for t in T if t not in posts]
    R["_start"] = dict(posts=[int(t) for t in posts], pres=[int(t) for t in pres], ref=int(pres[0]), fake=int(pres[-1]))


def names():
    return [k for k in R if not k.startswith("_")]
