import random
import numpy as np
from scipy import stats
from diff_diff import PreTrendsPower, compute_mdv, compute_pretrends_power
import es
import vh
from du import *

SPEC = "P16_PreTrends"
RULE = ("power, minimum detectable violation, curves and the bridge to sensitivity analysis for every combination (enumerated by TLC) of event-study source, violation "
        "shape, question, level and target; non-trivial when an answer was returned")
SOURCES = ["stag", "stagmock", "allpost", "allpost", "sa", "multi"]
KINDS = ["linear", "constant", "last_period", "custom"]
ASK = ["fit", "fit", "curve", "bridge"]


def generate(tier, work):
    return [vh.generate("GenConfig", "GenConfig_pretrends.cfg", work)]


def nontrivial(ev):
    return ev.get("raised") == "" and ev["kind"] not in ("args", "converted")


def cases(tier, rng, scen):
    for rep in range(1 if tier == "quick" else 10):
        for n, (s, v, a, al, tp) in enumerate(scen["GenConfig"]):
            if tier == "quick" and rng.random() > 0.6:
                continue
            r = random.Random("P16/%d/%d/%s" % (rep, n, rng.random()))
            kind = SOURCES[s]
            src = es.make("stag" if kind == "sa" else kind, r)
            if kind == "sa":
                src["est"] = "sa"
            c = {"id": "c%d_%d" % (rep, n), "kind": ASK[a], "src": src, "violation": KINDS[v], "alpha": [0.05, 0.1, 0.01][al], "target": [0.8, 0.95, 0.05][tp],
                 "wseed": r.randint(0, 999), "M": r.choice([None, 0.0, 0.5, 2.0, -1.5]), "at": r.choice([0.0, 0.25, 1.0, -1.0]), "npoints": r.choice([2, 5, 11]),
                 "grid": r.choice([None, [0.0, 0.5, 1.0], [2.0, -1.0]]), "short": r.random() < 0.3, "order": r.random() < 0.3}
            yield c
    bad = [("alpha", 0.0), ("alpha", 1.0), ("alpha", 2.0), ("power", 0.0), ("power", 1.0), ("violation_type", "quadratic"), ("violation_type", "custom"), ("nope", 1)]
    for i, (k, v) in enumerate(bad):
        if k != "nope":
            yield {"id": "args%d" % i, "kind": "args", "via": "init", "k": k, "v": v}
        yield {"id": "argss%d" % i, "kind": "args", "via": "set", "k": k, "v": v}
    yield {"id": "conv_list", "kind": "converted", "p": {"violation_type": "custom", "violation_weights": [1.0, 2.0]}}
    yield {"id": "conv_power", "kind": "converted", "p": {"alpha": 0.1, "power": 0.9, "violation_type": "constant"}}


def record(c):
    if c["kind"] == "args":
        q = Quiet()
        q(PreTrendsPower if c["via"] == "init" else PreTrendsPower().set_params, **{c["k"]: c["v"]})
        return [{"kind": "args", "what": "%s %s=%s" % (c["via"], c["k"], c["v"]), "raised": q.raised}]
    if c["kind"] == "converted":
        a, b = PreTrendsPower(**c["p"]), PreTrendsPower().set_params(**c["p"])
        same = all(repr(a.get_params()[k]) == repr(b.get_params()[k]) for k in a.get_params()) and repr(list(a._get_violation_weights(2))) == repr(list(b._get_violation_weights(2)))
        return [{"kind": "converted", "what": str(c["p"]), "same": same}]
    src = es.results(c["src"])
    if src is None:
        return []
    v = es.view(c["src"], src)
    r = random.Random(c["wseed"])
    pre, kw, n = [], {}, 0
    if v["kind"] == "stag":
        n = len([e for e in v["es"] if e["e"] < 0 and e["n"] > 0 and np.isfinite(e["se"])])
    elif c["src"].get("ref") is not None:
        ps = [x["p"] for x in v["post"]]
        pre = ps[:r.randint(1, len(ps))] + ([c["src"]["ref"]] if r.random() < 0.3 else [])
        if c["order"]:
            r.shuffle(pre)
        n = len([p for p in pre if p != c["src"]["ref"]])
        kw = {"pre_periods": pre}
    w = [dy(r, -2, 2, 2) for _ in range(n)]
    if n and r.random() < 0.08:
        w = w + [1.0]
    if n and r.random() < 0.05:
        w = [0.0] * n
    w = w or [1.0]
    custom = c["violation"] == "custom"
    pt = PreTrendsPower(alpha=c["alpha"], power=c["target"], violation_type=c["violation"], violation_weights=w if custom else None)
    ev = {"kind": c["kind"], "src": v, "pre": pre, "violation": c["violation"], "custom": fls(w) if custom else [], "alpha": fl(c["alpha"]), "target": fl(c["target"]),
          "M": c["M"] if c["M"] is None else fl(c["M"]), "at": fl(c["at"]), "grid": [] if c["grid"] is None else fls(c["grid"]), "npoints": c["npoints"], "crit": "null", "res": "null"}
    q = Quiet()
    if c["kind"] == "fit":
        f = q(pt.fit, src, M=c["M"], **kw)
        if f is not None:
            ev["crit"] = fl(f.critical_value)
            ev["res"] = {"mdv": fl(f.mdv), "n": int(f.n_pre_periods), "M": fl(f.violation_magnitude), "nc": fl(f.noncentrality), "stat": fl(f.test_statistic), "power": fl(f.power),
                         "eff": fls(f.pre_period_effects), "ses": fls(f.pre_period_ses), "V": mat(f.vcov), "adequate": bool(f.power_adequate), "informative": bool(f.is_informative),
                         "powerat": fl(f.power_at(c["at"])), "powerat2": fl(pt.power_at(src, c["at"], **kw))}
            if c["short"] and not custom:
                g = compute_pretrends_power(src, M=c["M"], alpha=c["alpha"], target_power=c["target"], violation_type=c["violation"], **kw)
                ev["res"]["power"], ev["res"]["mdv"] = fl(g.power), fl(compute_mdv(src, alpha=c["alpha"], target_power=c["target"], violation_type=c["violation"], **kw))
    elif c["kind"] == "curve":
        f = q(pt.power_curve, src, M_grid=c["grid"], n_points=c["npoints"], **kw)
        if f is not None:
            d = f.to_dataframe()
            ev["res"] = {"mdv": fl(f.mdv), "M": fls(d["M"]), "power": fls(d["power"])}
    else:
        f = q(pt.sensitivity_to_honest_did, src, **kw)
        if f is not None:
            ev["res"] = {"mdv": fl(f["mdv"]), "maxse": fl(f["max_pre_se"]), "ratio": fl(f["mdv_in_ses"])}
    if ev["crit"] == "null" and ev["res"] != "null":
        ev["crit"] = fl(pt.fit(src, **kw).critical_value)
    ev["raised"], ev["msg"] = q.raised, q.raised + ": " + q.msg[:80]
    return [ev]
