import random
import numpy as np
import pandas as pd
from diff_diff import prep, DifferenceInDifferences
import vh
from du import *

SPEC = "P20_Prep"
RULE = ("every data preparation function on random tables and requests, and balance_panel on every 3x3 presence pattern enumerated by TLC; non-trivial when a table was returned")
KINDS = ["indicator", "indicator", "long", "balance", "validate", "validate", "summary", "eventtime", "cohorts", "rank", "rank", "rank", "suggest"]


def nontrivial(ev):
    return ev["raised"] == ""


def cost(c):
    return 4 if c["kind"] == "rank" else 1


def generate(tier, work):
    return [vh.generate("GenPanel", "GenPanel_3x3.cfg", work)]


def cases(tier, rng, scen):
    q = tier == "quick"
    sk = scen["GenPanel"]
    for i, s in enumerate(rng.sample(sk, min(len(sk), 120 if q else 3000))):
        r = random.Random("P20s%d" % i)
        yield {"id": "skel%d" % i, "kind": "balance", "cells": [(u, t) for u, c in enumerate(s) for t in c["at"]], "seed": "s%d" % i}
    for i in range(1000 if q else 6000):
        r = random.Random("P20/%d/%s" % (i, rng.random()))
        nu, npd = r.randint(2, 6), r.randint(1, 5)
        cells = [(u, t) for u in range(nu) for t in range(npd)]
        if r.random() < 0.5:
            cells = [x for x in cells if r.random() < 0.8] or cells
        if r.random() < 0.5:
            r.shuffle(cells)
        yield {"id": "c%d" % i, "kind": r.choice(KINDS), "cells": cells, "seed": "%d/%s" % (i, r.random())}


def pure(f, df, *a, **k):
    before = df.copy(deep=True)
    q = Quiet()
    r = q(f, df, *a, **k)
    try:
        pd.testing.assert_frame_equal(df, before)
        ok = list(df.columns) == list(before.columns)
    except AssertionError:
        ok = False
    return q, r, ok


def record(c):
    r = random.Random("P20r" + c["seed"])
    ev = globals()["do_" + c["kind"]](c, r)
    ev["kind"] = c["kind"]
    return [ev]


def head(q, ok, **k):
    return dict(raised=q.raised, msg=q.raised + ": " + q.msg[:100], pure=ok, **k)


def table(df, extra):
    return df.drop(columns=[extra]) if extra in df.columns else df


def do_indicator(c, r):
    n = len(c["cells"])
    col = [dy(r, -3, 3, 1) for _ in range(n)]
    if r.random() < 0.2:
        col[r.randrange(n)] = float("nan")
    df = pd.DataFrame({"k": col, "z": range(n)}, index=range(5, 5 + n) if r.random() < 0.3 else None)
    by = r.choice(["values", "cut"])
    above = True
    nargs, has = 1, True
    post = r.random() < 0.5
    new = r.choice([None, "flag"])
    values = [dy(r, -3, 3, 1) for _ in range(r.choice([1, 1, 2, 3]))]
    cut = dy(r, -3, 3, 1)
    kw = {"new_column": new} if new else {}
    z = r.random()
    if z < 0.08: nargs = r.choice([0, 2])
    elif z < 0.15: has = False
    like, shown = r.choice(["number", "text", "date"]), lambda v: v
    if like == "text": by = "values"
    if like == "text" and nargs == 1: shown = lambda v: dict(zip(range(-3, 4), ["A", "B", "AB", "BA", "a", "ABA", "C"]))[int(v)]      # labels made of other labels
    elif like == "date" and (post or by == "values") and nargs == 1: shown = lambda v: pd.Timestamp("2020-01-31") + pd.Timedelta(days=15 * int(v))
    else: like = "number"
    df["k"] = [None if v != v and like == "text" else pd.NaT if v != v and like == "date" else shown(v) for v in col] if like != "number" else col
    one = len(values) == 1 and r.random() < 0.7
    given = shown(values[0]) if one else [shown(v) for v in values]
    if r.random() < 0.2 and len(values) > 1:
        given = tuple(given) if r.random() < 0.5 else set(given)
    start = shown(cut)
    if like == "date" and r.random() < 0.6: start = str(start.date())
    if nargs == 2 or (nargs == 1 and by == "values"):
        kw["post_periods" if post else "treated_values"] = given
    if nargs == 2 or (nargs == 1 and by == "cut"):
        kw["treatment_start" if post else "threshold"] = start
        if not post and r.random() < 0.5:
            above = kw["above_threshold"] = False
    q, o, ok = pure(prep.make_post_indicator if post else prep.make_treatment_indicator, df, "k" if has else "nope", **kw)
    name = new or ("post" if post else "treated")
    return head(q, ok, by=by, above=above, nargs=nargs, has=has, values=fls(values), cut=fl(cut), col=fls(col), out=fls(o[name]) if o is not None else [],
                same=o is not None and table(o, name).equals(df))


def do_long(c, r):
    n, k = r.randint(1, 5), r.randint(1, 4)
    ids = r.sample(range(1, 50), n)
    vals = [[dy(r) if r.random() > 0.1 else float("nan") for _ in range(k)] for _ in range(n)]
    cols = ["y%d" % j for j in range(k)]
    r.shuffle(cols)
    df = pd.DataFrame({"id": ids})
    for j, col in enumerate(cols):
        df[col] = [v[j] for v in vals]
    df["lab"] = ["L%d" % r.randint(0, 3) for _ in range(n)]
    if r.random() < 0.4:                     # the columns stand in another order in the table
        order = list(df.columns)
        r.shuffle(order)
        df = df[order]
    given = r.random() < 0.6
    times = r.sample(range(1990, 2030), k) if given else list(range(k))
    z = r.random()
    bad = True
    kw = {"time_values": times} if given else {}
    args = [cols, "id"]
    if z < 0.05: args[0] = []
    elif z < 0.1: args[1] = "nope"
    elif z < 0.15: args[0] = cols + ["nope"]
    elif z < 0.2: kw["time_values"] = times + [1]
    else: bad = False
    kw.update(time_name="year", value_name="sales")
    q, o, ok = pure(prep.wide_to_long, df, *args, **kw)
    ev = head(q, ok, bad=bad, ids=ids, times=times, vals=[fls(v) for v in vals], other=list(df["lab"]), cols=["id", "year", "sales", "lab"])
    if o is not None:
        ev["out"] = {"id": [int(v) for v in o["id"]], "t": [int(v) for v in o["year"]], "v": fls(o["sales"]), "other": list(o["lab"]), "cols": list(o.columns)}
    return ev


def do_balance(c, r):
    cells = [tuple(x) for x in c["cells"]]
    method = r.choice(["inner", "outer", "fill", "fill"])
    z = r.random()
    bad = z < 0.06
    if method == "inner" and r.random() < 0.3:
        cells = cells + [r.choice(cells)]
    y = [dy(r) if r.random() > 0.12 else float("nan") for _ in cells]
    x = [r.randint(0, 9) for _ in cells]
    s = ["S%d" % r.randint(0, 5) for _ in cells]
    if r.random() < 0.5:
        z2 = list(zip(cells, y, x, s))
        r.shuffle(z2)
        cells, y, x, s = [list(v) for v in zip(*z2)]
    df = pd.DataFrame({"u": [k[0] for k in cells], "t": [k[1] for k in cells], "y": y, "x": x, "s": s}, index=range(7, 7 + len(cells)) if r.random() < 0.3 else None)
    fillgiven = method == "fill" and r.random() < 0.5
    fill = r.choice([0.0, -1.5, 0.0])
    a = ["u", "t"]
    kw = {"method": method}
    if bad:
        w = r.randrange(3)
        if w == 0: a[0] = "nope"
        elif w == 1: a[1] = "nope"
        else: kw["method"] = "left"
    if fillgiven:
        kw["fill_value"] = fill
    q, o, ok = pure(prep.balance_panel, df, *a, **kw)
    ev = head(q, ok, bad=bad, method=method, fillgiven=fillgiven, fill=fl(fill), u=[int(v) for v in df["u"]], t=[int(v) for v in df["t"]], y=fls(y), x=fls(x), s=list(s))
    if o is not None:
        ev["out"] = {"u": [int(v) for v in o["u"]], "t": [int(v) for v in o["t"]], "y": fls(o["y"]), "x": fls(o["x"]), "s": [v if isinstance(v, str) else "null" for v in o["s"]]}
    return ev


def do_validate(c, r):
    cells = c["cells"]
    nu = 1 + max(u for u, _ in cells)
    tr = [r.randint(0, 1) for _ in range(nu)]
    npd = 1 + max(t for _, t in cells)
    if r.random() < 0.5:
        cells = [(u, int(t > 0)) for u, t in cells]
    off = r.choice([0, 0, 0, 1])
    y = [dy(r) for _ in cells]
    d = [float(tr[u]) for u, _ in cells]
    t = [float(t_ + off) for _, t_ in cells]
    unit = ["u%d" % u for u, _ in cells]
    i = r.randrange(len(cells))
    z = r.random()
    ynum = cols = True
    unitmiss = False
    byunit = r.random() < 0.6
    if z < 0.06: y[i] = float("nan")
    elif z < 0.12: d[i] = float("nan")
    elif z < 0.18: t[i] = float("nan")
    elif z < 0.24: unit[i], unitmiss = None, True
    elif z < 0.3: d[i] = r.choice([2.0, 0.5, -1.0])
    elif z < 0.36: d[i] = 1 - d[i]
    elif z < 0.4: ynum = False
    elif z < 0.45: cols = False
    df = pd.DataFrame({"y": [str(v) for v in y] if not ynum else y, "d": d, "t": t, "unit": unit})
    if not any(v != v for v in d) and r.random() < 0.5 and set(d) <= {0.0, 1.0}:
        df["d"] = df["d"].astype(r.choice([int, bool]))
    raise_ = r.random() < 0.4
    a = ["y", "d", "t"]
    if not cols:
        a[r.randrange(3)] = "nope"
    q, o, ok = pure(prep.validate_did_data, df, *a, unit="unit" if byunit else None, raise_on_error=raise_)
    ev = head(q, ok, raise_=raise_, y=fls(y), d=fls(d), t=fls(t), unit=[str(u) for u in unit], byunit=byunit, unitmiss=unitmiss, ynum=ynum, cols=cols, fitted=True, fitmsg="")
    ev["raise"] = ev.pop("raise_")
    if o is not None:
        s = o["summary"]
        ev["res"] = {"valid": bool(o["valid"]), "nerr": len(o["errors"]), "errors": " | ".join(o["errors"])[:150], "nobs": fl(s.get("n_obs")), "ntr": fl(s.get("n_treated")),
                     "nco": fl(s.get("n_control")), "nper": fl(s.get("n_periods")), "nun": fl(s.get("n_units")), "wtime": any("not 0 and 1" in w for w in o["warnings"]),
                     "wvary": any("varies within" in w for w in o["warnings"]), "wunbal": any("nbalanced" in w for w in o["warnings"])}
        if o["valid"] and set(t) == {0.0, 1.0}:
            fq = Quiet()
            f = fq(DifferenceInDifferences().fit, df, outcome="y", treatment="d", time="t")
            ev["fitted"] = f is not None and np.isfinite(f.att)
            ev["fitmsg"] = fq.raised + fq.msg[:80]
    return ev


def do_summary(c, r):
    cells = c["cells"]
    nu = 1 + max(u for u, _ in cells)
    tr = [1, 0] + [r.randint(0, 1) for _ in range(max(0, nu - 2))]
    if r.random() < 0.6:
        cells = [(u, int(t > 0)) for u, t in cells]
    y = [dy(r) / r.choice([1, 3]) for _ in cells]
    t = [x + 10 for _, x in cells] if r.random() < 0.4 else [x for _, x in cells]
    d = [tr[u] for u, _ in cells]
    df = pd.DataFrame({"y": y, "d": d, "t": t, "u": [u for u, _ in cells]})
    df = retype(df, r, ["d", "u"])
    q, o, ok = pure(prep.summarize_did_data, df, "y", "d", "t", unit=r.choice([None, "u"]))
    ev = head(q, ok, y=fls(y), d=d, t=t, rows=[])
    if o is not None:
        ev["rows"] = [{"label": str(k), "n": fl(v["n"]), "mean": fl(v["mean"]), "std": fl(v["std"]), "min": fl(v["min"]), "max": fl(v["max"])} for k, v in o.iterrows()]
    return ev


def do_eventtime(c, r):
    n = len(c["cells"])
    t = [x for _, x in c["cells"]]
    g = [r.choice([1.0, 2.0, 3.0, float("nan"), float("inf")]) for _ in range(n)]
    if r.random() < 0.3:
        g = [float(r.randint(0, 4)) for _ in range(n)]
    df = pd.DataFrame({"t": t, "g": g, "z": range(n)})
    if all(np.isfinite(g)) and r.random() < 0.5:
        df["g"] = df["g"].astype(int)
    df = retype(df, r, ["t", "g"])
    new = r.choice([None, "rel"])
    bad = r.random() < 0.1
    a = ["t", "g"]
    if bad:
        a[r.randrange(2)] = "nope"
    q, o, ok = pure(prep.create_event_time, df, *a, **({"new_column": new} if new else {}))
    name = new or "event_time"
    return head(q, ok, bad=bad, t=fls(t), g=fls(g), out=fls(o[name]) if o is not None else [], same=o is not None and table(o, name).equals(df))


def do_cohorts(c, r):
    cells = c["cells"]
    y, x = [dy(r) for _ in cells], [dy(r) for _ in cells]
    d = [(u * 5 + 1) % 3 for u, _ in cells]
    df = pd.DataFrame({"u": ["n%d" % u for u, _ in cells], "t": [t for _, t in cells], "d": d, "y": y, "x": x})
    df = retype(df, r, ["t", "d"])
    q, o, ok = pure(prep.aggregate_to_cohorts, df, "u", "t", "d", "y", covariates=["x"])
    ev = head(q, ok, y=fls(y), x=fls(x), d=d, t=[t for _, t in cells], unit=[u for u, _ in cells], rows=[])
    if o is not None:
        ev["rows"] = [{"d": int(v["d"]), "t": int(v["t"]), "mean": fl(v["mean_y"]), "x": fl(v["x"]), "n": int(v["n_units"])} for _, v in o.iterrows()]
    return ev


def panel(c, r, npd):
    """outcomes by unit and period (NaN where there is no row), the table in the order of the cells"""
    nu = 1 + max(u for u, _ in c["cells"])
    Y = [[float("nan")] * npd for _ in range(nu)]
    for u, t in c["cells"]:
        Y[u][t] = dy(r, -4, 4)
    if r.random() < 0.3: Y = [[round(4 * v) + 60.0 if v == v else v for v in row] for row in Y]      # whole and positive
    return nu, Y


def do_rank(c, r):
    npd = 1 + max(t for _, t in c["cells"])
    nu, Y = panel(c, r, npd)
    k = r.choice([0, 0, 1, 2])
    X = [[[dy(r, -2, 2) for _ in range(npd)] for _ in range(nu)] for _ in range(k)]
    lab = (lambda u: u * 3 + 1) if r.random() < 0.5 else (lambda u: "unit %s" % "qzabkm"[u] if u < 6 else "ghost")
    df = pd.DataFrame([dict({"unit": lab(u), "per": t, "y": Y[u][t]}, **{"x%d" % j: X[j][u][t] for j in range(k)}) for u, t in c["cells"]])
    tr = r.sample(range(nu), r.randint(1, max(1, nu // 2)))
    seen = sorted({u for u, _ in c["cells"]})
    kw = {}
    badargs = False
    treated = list(tr)
    if r.random() < 0.5:
        df["d"] = [int(u in tr) for u, _ in c["cells"]]
        kw["treatment_column"] = "d"
        treated = [u for u in tr if u in seen]
    else:
        kw["treated_units"] = [lab(u) for u in tr]
        if r.random() < 0.15:
            kw["treated_units"].append(lab(77))
    pers = sorted({t for _, t in c["cells"]})
    pre = pers[:len(pers) // 2]
    if r.random() < 0.7:
        pre = sorted(r.sample(range(npd), r.randint(1, npd)))
        kw["pre_periods"] = pre
    ex = [u for u in range(nu) if r.random() < 0.12]
    req = [u for u in range(nu) if r.random() < 0.12]
    if ex: kw["exclude_units"] = [lab(u) for u in ex]
    if req: kw["require_units"] = [lab(u) for u in req]
    ow, cw = 0.7, 0.3
    if r.random() < 0.5:
        ow, cw = r.choice([(0.0, 0.0), (1.0, 0.0), (0.0, 1.0), (0.5, 0.5), (0.25, 0.5), (1.0, 1.0)])
        kw.update(outcome_weight=ow, covariate_weight=cw)
    top = r.randint(1, nu) if r.random() < 0.4 else None
    if top: kw["n_top"] = top
    lam = r.choice([0.0, 0.0, 1.0, 0.25])
    kw["lambda_reg"] = lam
    if k: kw["covariates"] = ["x%d" % j for j in range(k)]
    z = r.random()
    if z < 0.1:
        badargs = True
        w = r.randrange(5)
        if w == 0: kw["outcome_weight"] = 1.5
        elif w == 1: kw["covariate_weight"] = -0.1
        elif w == 2: kw.update(treatment_column="nope")
        elif w == 3: kw["covariates"] = ["nope"]
        else:
            kw.pop("treated_units", None)
            kw.pop("treatment_column", None)
    df = retype(df, r, ["unit", "per", "y", "d", "x0", "x1"])
    q, o, ok = pure(prep.rank_control_units, df, "unit", "per", "y", **kw)
    ev = head(q, ok, Y=[fls(v) for v in Y], X=[[fls(v) for v in x] for x in X], treated=[u + 1 for u in treated], pre=[t + 1 for t in pre], exclude=[u + 1 for u in ex], require=[u + 1 for u in req],
              ow=fl(ow), cw=fl(cw), topgiven=top is not None, top=top or 0, lam=fl(lam), badargs=badargs, rows=[])
    if o is not None:
        back = {lab(u): u + 1 for u in range(nu)}
        ev["rows"] = [{"unit": back[v["unit"]], "q": fl(v["quality_score"]), "os": fl(v["outcome_trend_score"]), "xs": fl(v["covariate_score"]), "w": fl(v["synthetic_weight"]),
                       "rmse": fl(v["pre_trend_rmse"]), "req": bool(v["is_required"])} for _, v in o.iterrows()]
    return ev


def do_suggest(c, r):
    npd = 1 + max(t for _, t in c["cells"])
    nu, Y = panel(c, r, npd)
    df = pd.DataFrame([{"unit": "n%d" % u, "per": t, "y": Y[u][t]} for u, t in c["cells"]])
    pers = sorted({t for _, t in c["cells"]})
    pre, kw = pers[:len(pers) // 2], {}
    if r.random() < 0.7:
        pre = r.sample(range(npd), r.randint(1, npd))
        kw["pre_periods"] = pre
    n = r.choice([1, 2, 5, 9])
    df = retype(df, r, ["per", "y"])
    q, o, ok = pure(prep.rank_control_units, df, "unit", "per", "y", suggest_treatment_candidates=True, n_treatment_candidates=n, **kw)
    ev = head(q, ok, Y=[fls(v) for v in Y], pre=[t + 1 for t in pre], ncand=n, rows=[])
    if o is not None:
        ev["rows"] = [{"unit": int(v["unit"][1:]) + 1, "avg": fl(v["avg_outcome_level"]), "slope": fl(v["outcome_trend"]), "sim": int(v["n_similar_controls"]),
                       "score": fl(v["treatment_candidate_score"])} for _, v in o.iterrows()]
    return ev
