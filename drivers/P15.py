import random
import numpy as np
from diff_diff import HonestDiD, compute_honest_did
from diff_diff.honest_did import DeltaRM, DeltaSD, DeltaSDRM
import es
import vh
from du import *

SPEC = "P15_HonestDiD"
RULE = ("bounds, intervals, sensitivity grids and breakdown values for every combination (enumerated by TLC) of restriction, event-study source (fitted and given "
        "results with and without covariance), weighting, grid shape and M; non-trivial when a result was returned")
METHODS = ["relative_magnitude", "smoothness", "combined"]
SOURCES = ["stag", "multi", "stagmock", "multimock"]
GRIDS = [[0, 0.25, 0.5, 1.0, 2.0], [0.5, 1.0, 4.0], [2.0, 0.0, 0.75, 0.25], [3.0]]
MS = [None, 0.0, 0.5, 2.0, -0.5]


def generate(tier, work):
    return [vh.generate("GenConfig", "GenConfig_honest.cfg", work)]


def nontrivial(ev):
    return ev.get("raised") == "" and ev["kind"] != "args"


def cases(tier, rng, scen):
    for rep in range(1 if tier == "quick" else 12):
        for n, (m, s, w, g, k) in enumerate(scen["GenConfig"]):
            if tier == "quick" and rng.random() > 0.45:
                continue
            r = random.Random("P15/%d/%d/%s" % (rep, n, rng.random()))
            src = es.make(SOURCES[s], r)
            if r.random() < 0.25:                # outcomes measured in small units
                sc = r.choice([64, 4096])
                if src["kind"] == "stagmock":
                    src["es"] = [[e, n_, b * (sc if e >= 0 else 1), se] for e, n_, b, se in src["es"]]
                elif src["kind"] == "multimock":
                    src["eff"] = [b * sc for b in src["eff"]]
            kind = r.choice(["fit", "sens", "sens", "direct"])
            if MS[k] is not None and MS[k] < 0:
                kind = r.choice(["fit", "sens"])
            yield {"id": "c%d_%d" % (rep, n), "kind": kind, "method": METHODS[m], "src": src, "w": w, "grid": GRIDS[g], "M": MS[k], "wseed": r.randint(0, 999),
                   "alpha": r.choice([0.05, 0.1, 0.01, 0.5]), "tol": r.choice([0.01, 0.001, 0.1]), "default_grid": r.random() < 0.2}
    bad = [("method", "flci"), ("method", None), ("M", -1.0), ("M", -1e-9), ("alpha", 0.0), ("alpha", 1.0), ("alpha", -0.1)]
    for i, (k, v) in enumerate(bad):
        yield {"id": "args%d" % i, "kind": "args", "via": "init", "k": k, "v": v}
        yield {"id": "argss%d" % i, "kind": "args", "via": "set", "k": k, "v": v}
    yield {"id": "args_unknown", "kind": "args", "via": "set", "k": "nope", "v": 1}
    for cls in ("DeltaSD", "DeltaRM", "DeltaSDRM"):
        for k in {"DeltaSD": ["M"], "DeltaRM": ["Mbar"], "DeltaSDRM": ["M", "Mbar"]}[cls]:
            yield {"id": "delta_%s_%s" % (cls, k), "kind": "args", "via": cls, "k": k, "v": -0.25}
    yield {"id": "wrong_type", "kind": "args", "via": "type", "k": "results", "v": 0}
    # the pre-trends are exactly linear, so that a violation without curvature is pinned down
    yield {"id": "kf_smoothness_ignores_pretrend", "kind": "fit", "method": "smoothness", "M": 0.0, "alpha": 0.05, "w": 0, "wseed": 0, "grid": [0.0], "tol": 0.01, "default_grid": False,
           "claim": True, "src": {"kind": "stagmock", "es": [[-3, 1, -3.0, 0.25], [-2, 1, -2.0, 0.25], [-1, 1, -1.0, 0.25], [0, 1, 5.0, 0.25], [1, 1, 6.0, 0.25]], "ose": 0.25}}


def lvec(c, m):
    if c["w"] == 0 or m == 0:
        return None
    r = random.Random(c["wseed"])
    if c["w"] == 1:
        v = [0.0] * m
        v[r.randrange(m)] = 1.0
        return v
    if c["w"] == 2:
        v = [dy(r, -2, 2, 2) for _ in range(m)]
        if m >= 3:
            v = [1.0, -2.0, 1.0] + [0.0] * (m - 3)
        elif r.random() < 0.4:
            v = v + [1.0]
        return v
    return [1.0] + [0.0] * (m - 2) + [-1.0] if m >= 2 else [2.0]


def row(r):
    return {"lb": fl(r.lb), "ub": fl(r.ub), "cilb": fl(r.ci_lb), "ciub": fl(r.ci_ub)}


def record(c):
    if c["kind"] == "args":
        q = Quiet()
        if c["via"] == "init":
            q(HonestDiD, **{c["k"]: c["v"]})
        elif c["via"] == "set":
            q(HonestDiD().set_params, **{c["k"]: c["v"]})
        elif c["via"] == "type":
            q(HonestDiD().fit, {"effect": 1.0})
        else:
            q({"DeltaSD": DeltaSD, "DeltaRM": DeltaRM, "DeltaSDRM": DeltaSDRM}[c["via"]], **{c["k"]: c["v"]})
        return [{"kind": "args", "what": "%s %s=%s" % (c["via"], c["k"], c["v"]), "raised": q.raised}]
    src = es.results(c["src"])
    if src is None:
        return []
    v = es.view(c["src"], src)
    m = len(v["post"]) if v["kind"] == "multi" else len([e for e in v["es"] if e["e"] >= 0 and e["n"] > 0 and np.isfinite(e["se"])])
    l = lvec(c, m)
    M = 1.0 if c["M"] is None and c["method"] == "relative_magnitude" else c["M"] or 0.0
    q = Quiet()
    h = HonestDiD(method=c["method"], alpha=c["alpha"], l_vec=l, **({"M": c["M"]} if c["M"] is not None and c["M"] >= 0 else {}))
    if c["M"] is None or c["M"] >= 0:
        h.set_params(M=h.M)
    ev = {"kind": c["kind"], "method": c["method"], "alpha": fl(c["alpha"]), "lvec": [] if l is None else fls(l), "src": v, "M": fl(M), "grid": [], "res": "null", "sens": "null", "direct": "null"}
    if c["kind"] == "fit":
        r = q(h.fit, src, **({"M": c["M"]} if c["M"] is not None else {}))
        if r is not None:
            short = True
            if l is None and c["alpha"] and c["M"] is not None:
                s = compute_honest_did(src, method=c["method"], M=c["M"], alpha=c["alpha"])
                short = repr(row(s)) == repr(row(r))
            d = r.to_dict()
            ev["res"] = {**row(r), "est": fl(r.original_estimate), "se": fl(r.original_se), "sig": bool(r.is_significant), "star": r.significance_stars == "*", "M": fl(r.M),
                         "method": r.method, "alpha": fl(r.alpha), "width": fl(d["identified_set_width"]), "ciwidth": fl(d["ci_width"]), "short": short}
            if c.get("claim"):
                ev["kind"] = "claim"
    elif c["kind"] == "sens":
        grid = None if c["default_grid"] else list(c["grid"])
        if c["M"] is not None and c["M"] < 0:
            grid = [0.0, c["M"]]
            ev["M"] = 0.0
        eff = grid if grid is not None else ([0, 0.25, 0.5, 0.75, 1.0, 1.25, 1.5, 1.75, 2.0] if c["method"] == "relative_magnitude" else [0, 0.1, 0.2, 0.3, 0.5, 0.75, 1.0])
        ev["grid"] = fls(eff)
        r = q(h.sensitivity_analysis, src, M_grid=grid)
        if r is not None:
            df = r.to_dataframe()
            rows = [{"M": fl(x["M"]), "lb": fl(x["lb"]), "ub": fl(x["ub"]), "cilb": fl(x["ci_lb"]), "ciub": fl(x["ci_ub"]), "sig": bool(x["is_significant"])} for _, x in df.iterrows()]
            ok = all(repr((a["lb"], a["ub"])) == repr(tuple(map(fl, b))) and repr((a["cilb"], a["ciub"])) == repr(tuple(map(fl, k))) for a, b, k in zip(rows, r.bounds, r.robust_cis))
            ev["sens"] = {"rows": rows if ok else [], "brk": None if r.breakdown_M is None else fl(r.breakdown_M), "has": bool(r.has_breakdown), "est": fl(r.original_estimate),
                          "se": fl(r.original_se), "repr": repr(r).split("breakdown_M=")[1][:-1]}
            ev["res"] = {"sig": any(x["sig"] for x in rows)}
    else:
        b = q(h.breakdown_value, src, tol=c["tol"])
        ev["direct"] = {"brk": None if b is None else fl(b), "tol": fl(c["tol"])}
        ev["res"] = {"sig": False}
    ev["raised"], ev["msg"] = q.raised, q.raised + ": " + q.msg[:80]
    return [ev]
