import random
import numpy as np
import pandas as pd
from diff_diff import DifferenceInDifferences
import vh
from du import *

SPEC = "P02_BasicDiD"
RULE = ("2x2 difference-in-differences fits: every 4-unit 2-period panel skeleton (observed cells x group) enumerated by TLC, and random "
        "data with covariates, fixed effects, absorbed factors, clusters, formulas, covariance kinds; non-trivial when a fit was returned")


def nontrivial(ev):
    return ev["raised"] == ""


def generate(tier, work):
    g = vh.generate("GenPanel", "GenPanel_4x2.cfg", work)
    return [g]


def cases(tier, rng, scen):
    sk = scen["GenPanel"]
    sub_ = sk if tier != "quick" else rng.sample(sk, min(len(sk), 130))
    for i, s in enumerate(sub_):
        r = random.Random("P02s%d" % i)
        rows = [(u, t - 1, c["cls"]) for u, c in enumerate(s) for t in c["at"]]
        n = len(rows)
        yield mk("skel%d" % i, r, rows, plain=True)
    for i in range(150 if tier == "quick" else 2000):
        r = random.Random("P02r%s/%d" % (rng.random(), i))
        nu = r.randint(4, 6)
        np_ = r.choice([2, 2, 3, 4])
        cut = r.randint(1, np_ - 1)
        tr = [1, 0] + [r.randint(0, 1) for _ in range(nu - 2)]
        r.shuffle(tr)
        rows = [(u, int(t >= cut), tr[u], t) for u in range(nu) for t in range(np_)]
        bal = True
        if r.random() < 0.4:
            rows = [x for x in rows if r.random() < 0.85]
            bal = False
        if r.random() < 0.3:
            r.shuffle(rows)
        yield mk("rand%d" % i, r, rows, bal=bal)

    # as many observations as parameters
    for i in range(12):
        r = random.Random("P02sat%d" % i)
        rows = [(u, t, int(u < 2 - i % 2)) for u in range(2 + i % 3) for t in range(2)]
        rows = [x for x in rows if x[0] in (0, 2 + i % 3 - 1)] if i < 6 else rows
        yield mk("sat%d" % i, r, rows, bal=True)

    # an absorbed factor that cuts across the groups, and an unbalanced panel
    r = random.Random("P02kf")
    rows = [(u, int(t >= 1), [1, 0, 1, 0, 0][u], t) for u in range(5) for t in range(2)]
    c = mk("kf_absorb_region", r, rows)
    c.update(x=[[dy(r) for _ in rows]], fe=[], absorb=["region"], how="args", cluster=None, claim=True)
    yield c
    rows = [x for x in [(u, int(t >= 2), [1, 0, 1, 0, 0][u], t) for u in range(5) for t in range(4)] if (x[0], x[3]) not in [(0, 0), (0, 1), (1, 3), (2, 2)]]
    c = mk("kf_absorb_unbalanced", r, rows)
    c.update(x=[], fe=[], absorb=["unit"], how="args", cluster=None, claim=True)
    yield c


def mk(cid, r, rows, plain=False, bal=False):
    n = len(rows)
    c = {"id": cid, "unit": [x[0] for x in rows], "post": [x[1] for x in rows], "d": [x[2] for x in rows],
         "per": [x[3] if len(x) > 3 else x[1] for x in rows], "y": [dy(r) for _ in rows], "bal": bal,
         "robust": r.random() < 0.7, "cluster": None, "ncov": 0, "fe": [], "absorb": [], "alpha": r.choice([0.05, 0.1, 0.01]),
         "how": "args", "dtype": r.choice(["int", "int", "float", "bool"]), "x": [], "xn": None, "names": r.choice([("treated", "post", "y"), ("D", "after", "out come"), ("g", "t", "z")])}
    if not plain:
        k = r.choice([0, 0, 1, 2])
        c["x"] = [[dy(r, -3, 3, 2) for _ in rows] for _ in range(k)]
        z = r.random()
        if z < 0.2: c["fe"] = ["region"]
        elif z < 0.3: c["fe"] = ["unit"]
        elif z < 0.4: c["absorb"] = ["unit"]
        elif z < 0.5: c["absorb"] = ["region"]
        elif z < 0.6: c["absorb"] = ["unit", "per"]
        elif z < 0.65: c["fe"], c["absorb"] = ["region"], ["unit"]
        c["how"] = r.choice(["args", "star", "colon"] + (["starcov", "coloncov", "mixcov"] if k else []))
        # covariate names that overlap the names of the indicators
        if r.random() < 0.4:
            a, b = c["names"][0], c["names"][1]
            pool = [a + "2", "un" + a, b + "_x", "re" + b, a[:-1] + "_", "per2", a[0] + "q", "uni", a[:3], a[1:], b[:2], b[-2:], b[0], a[-1]]
            c["xn"] = r.sample(sorted(set(pool) - {a, b, c["names"][2], "", "unit", "per", "region"}), 2)
        if r.random() < 0.45:
            c["cluster"] = r.choice(["unit", "unit", "region"])
        if c["how"] != "args" and c["names"][2] == "out come":
            c["names"] = ("D", "after", "out_come")
    c["region"] = [(u * 7 + 3) % 3 for u in c["unit"]]
    return c


def record(c):
    dn, tn, yn = c["names"]
    cast = {"int": int, "float": float, "bool": bool}[c["dtype"]]
    df = pd.DataFrame({"unit": c["unit"], "per": c["per"], yn: c["y"], dn: [cast(v) for v in c["d"]], tn: [cast(v) for v in c["post"]], "region": c["region"]})
    xs = []
    for k, col in enumerate(c["x"]):
        xn = c["xn"][k] if c["xn"] else "x%d" % k
        df[xn] = col
        xs.append(xn)
    est = DifferenceInDifferences(robust=c["robust"], cluster=c["cluster"], alpha=c["alpha"], rank_deficient_action="silent")
    kw = dict(fixed_effects=c["fe"] or None, absorb=c["absorb"] or None)
    tail = "".join(" + " + x for x in xs)
    how = c["how"]
    if how == "args": kw.update(outcome=yn, treatment=dn, time=tn, covariates=xs or None)
    elif how == "star": kw.update(formula="%s ~ %s * %s" % (yn, dn, tn), covariates=xs or None)
    elif how == "starcov": kw.update(formula="%s ~ %s*%s%s" % (yn, dn, tn, tail))
    elif how == "colon": kw.update(formula="%s ~ %s + %s + %s:%s" % (yn, dn, tn, dn, tn), covariates=xs or None)
    elif how == "coloncov": kw.update(formula="%s ~ %s + %s%s + %s:%s" % (yn, dn, tn, tail, dn, tn))
    elif how == "mixcov": kw.update(formula="%s ~ %s * %s + %s" % (yn, dn, tn, xs[0]), covariates=xs[1:] or None)
    q = Quiet()
    r = q(est.fit, df, **kw)
    fac = {"unit": c["unit"], "region": c["region"], "per": c["per"]}
    ev = {"y": fls(c["y"]), "d": fls(c["d"]), "t": fls(c["post"]), "cov": [fls(x) for x in c["x"]],
          "fe": [fac[f] for f in c["fe"]], "absorb": [fac[f] for f in c["absorb"]], "balanced": c.get("claim", c["bal"] and "region" not in c["absorb"] + c["fe"]),
          "vkind": "cluster" if c["cluster"] else "hc1" if c["robust"] else "hom",
          "g": fac[c["cluster"]] if c["cluster"] else [], "alpha": fl(c["alpha"]), "raised": q.raised, "msg": q.msg[:80]}
    if c["cluster"] and len(set(ev["g"])) < 2:
        return []
    if r is not None:
        names = list(r.coefficients)
        j = names.index("%s:%s" % (dn, tn))
        lo, hi = ci(r.conf_int)
        v = np.asarray(r.vcov)[j, j]
        ev["res"] = {"att": fl(r.att), "se": fl(r.se), "t": fl(r.t_stat), "p": fl(r.p_value), "lo": lo, "hi": hi, "nobs": fl(r.n_obs),
                     "ntr": fl(r.n_treated), "nco": fl(r.n_control), "r2": fl(r.r_squared), "resid": fls(r.residuals), "fitted": fls(r.fitted_values),
                     "catt": fl(r.coefficients["%s:%s" % (dn, tn)]), "cconst": fl(r.coefficients.get("const")), "ctreat": fl(r.coefficients[dn]), "ctime": fl(r.coefficients[tn]),
                     "vse": fl(np.sqrt(v)) if not v < 0 else float("nan")}
    return [ev]
