import random
import numpy as np
import pandas as pd
from diff_diff import MultiPeriodDiD, utils
from diff_diff.linalg import LinearRegression, compute_r_squared
import vh
from du import *

SPEC = "P30_Building"
RULE = ("the helper functions used on their own: every chain of up to two demeaning operations (factor or two-way, in place or beside, enumerated by TLC) and random longer ones on random unbalanced tables, synthetic weights and "
        "effects from random matrices, p-values and intervals, coding checks, regression accessors; non-trivial when a call answered")


def nontrivial(ev):
    return ev.get("raised", "") == ""


def design(tier):
    return [("Transform", "Transform_design.cfg")]


def generate(tier, work):
    return [vh.generate("Transform", "Transform_gen.cfg", work)]


def cases(tier, rng, scen):
    q = tier == "quick"
    chains = sorted((s["chain"] for s in scen["Transform"]), key=str)
    pick = chains if not q else rng.sample(chains, min(len(chains), 200))
    for i, ch in enumerate(pick):
        yield {"id": "chain%d" % i, "kind": "chain", "chain": ch, "seed": "c%d/%d" % (i, rng.randrange(10 ** 9))}
    single = [c[0] for c in chains if len(c) == 1]
    for i in range(60 if q else 900):
        yield {"id": "long%d" % i, "kind": "chain", "chain": [rng.choice(single) for _ in range(rng.randint(3, 5))], "seed": "l%d/%d" % (i, rng.randrange(10 ** 9))}
    for kind, k in (("sdid", 90), ("infer", 120), ("binary", 40), ("reg", 90), ("period", 12)):
        for i in range(k if q else 12 * k):
            yield {"id": "%s%d" % (kind, i), "kind": kind, "seed": "%s%d/%d" % (kind, i, rng.randrange(10 ** 9))}


def cols(df, names):
    return {"names": [str(c) for c in df.columns if c not in names], "vals": [fls(df[c]) for c in df.columns if c not in names]}


def chain(c, r):
    nu, nt = r.randint(2, 4), r.randint(2, 3)
    rows = [(u, t) for u in range(nu) for t in range(nt)]
    if r.random() < 0.6: rows = [x for x in rows if r.random() < 0.8] or rows
    if r.random() < 0.15: rows += [r.choice(rows)]
    if r.random() < 0.6: r.shuffle(rows)
    scale = r.choice([1.0, 1.0, 1.0, 1e-5, 1e5])
    ulab = r.choice([lambda u: u, lambda u: "unit %s" % "dacb"[u], lambda u: 40 - 3 * u])
    tlab = r.choice([lambda t: t, lambda t: 2000 + 2 * t, lambda t: "q%d" % t])
    reg = {u: r.randint(0, 1) for u in range(nu)}
    df = pd.DataFrame({"id": [ulab(u) for u, _ in rows], "when": [tlab(t) for _, t in rows], "area": ["ab"[reg[u]] for u, _ in rows],
                       "y": [scale * dy(r) for _ in rows], "x": [float(r.randint(0, 1)) for _ in rows] if r.random() < 0.5 else [dy(r) for _ in rows]})
    z = r.random()
    if z < 0.3: df.index = r.sample(range(100), len(df))
    elif z < 0.45: df.index = [7] * len(df)
    keys = {"unit": [u for u, _ in rows], "time": [t for _, t in rows], "region": [reg[u] for u, _ in rows]}
    name = {"unit": "id", "time": "when", "region": "area"}
    ev = {"kind": "chain", "keys": keys, "init": cols(df, set(name.values())), "scale": max(1.0, scale) if scale >= 1 else scale, "steps": []}
    if scale < 1: ev["scale"] = 1.0
    cur = df
    for op in c["chain"]:
        q = Quiet()
        before = list(cur.index)
        kw = dict(inplace=op["inplace"], suffix=op["suffix"])
        if op["op"] == "group":
            o = q(utils.demean_by_group, cur, op["vars"], name[op["by"]], **kw)
            out, neff = o if o is not None else (None, -1)
        else:
            out, neff = q(utils.within_transform, cur, op["vars"], "id", "when", **kw), -1
        st = {"op": op, "raised": q.raised}
        if out is None:
            ev["steps"].append(st)
            return [ev]
        st.update(out=cols(out, set(name.values())), input=cols(cur, set(name.values())), same_object=out is cur, neff=int(neff),
                  index_same=list(out.index) == before and list(cur.index) == before and all(list(out[k]) == list(df[k]) for k in name.values()))
        ev["steps"].append(st)
        cur = out
    return [ev]


def sdid(c, r):
    nc, npre, npost = r.choice([1, 2, 3, 3, 4]), r.randint(1, 4), r.randint(1, 3)
    Y = np.array([[dy(r, -5, 5) for _ in range(npre + npost)] for _ in range(nc + 1)])
    if r.random() < 0.2: Y[nc] = Y[r.randrange(nc)]
    typ = r.choice([None, None, "uint8", "int16", "int64"])
    if typ: Y = np.round(2 * Y) + 100
    lam, zeta, minw = r.choice([1.0, 4.0, 20.0, 60.0]), r.choice([1.0, 0.0, 0.5, 3.0]), r.choice([1e-6, 1e-6, 0.1, 0.3, 0.9])
    A = [Y[:nc, :npre].T.copy(), Y[:nc, npre:].T.copy(), Y[nc, :npre].copy(), Y[nc, npre:].copy()]
    if typ: A = [a.astype(typ) for a in A]
    keep = [a.copy() for a in A]
    q = Quiet()

    def go():
        uw = utils.compute_synthetic_weights(A[0], A[2], lambda_reg=lam, min_weight=minw)
        tw = utils.compute_time_weights(A[0], A[2], zeta=zeta)
        gw = np.array([r.randint(0, 8) / 8 for _ in range(nc)])
        gt = np.array([r.randint(0, 8) / 8 for _ in range(npre)])
        tau = utils.compute_sdid_estimator(*A, gw, gt)
        n = r.choice([None, None, 1, 2, 9])
        pl = utils.compute_placebo_effects(A[0], A[1], A[2], gw, gt, list(range(nc)), n_placebo=n)
        pw = [utils.compute_synthetic_weights(np.delete(A[0], j, 1), A[0][:, j]) for j in range(nc)] if nc > 1 else []
        return uw, tw, gw, gt, tau, n, pl, pw
    o = q(go)
    ev = {"kind": "sdid", "raised": q.raised, "y": mat(Y), "npre": npre, "npost": npost, "lam": lam, "zeta": zeta, "minw": minw}
    if o is None: return [ev]
    uw, tw, gw, gt, tau, n, pl, pw = o
    ev.update(uw=fls(uw), tw=fls(tw), gw=fls(gw), gt=fls(gt), tau=fl(tau), np=n or 0, placebo=fls(pl), pw=[fls(w) for w in pw], untouched=all(np.array_equal(a, b) for a, b in zip(A, keep)))
    return [ev]


def infer(c, r):
    df = r.choice([None, None, 1, 2, 3, 7, 30, 400, 2.5])
    t, est, se, alpha, two = r.choice([0.0, dy(r, -3, 3, 16), dy(r, -9, 9, 16), dy(r, -2, 2, 64)]), dy(r), r.randint(1, 40) / 8, r.choice([0.05, 0.1, 0.01, 0.2, 0.5, 0.003]), r.random() < 0.6
    kw = {} if two and r.random() < 0.5 else {"two_sided": two}
    p = utils.compute_p_value(t, **({} if df is None and r.random() < 0.5 else {"df": df}), **kw)
    lo, hi = utils.compute_confidence_interval(est, se, **({} if alpha == 0.05 and r.random() < 0.5 else {"alpha": alpha}), **({"df": df}))
    return [{"kind": "infer", "t": t, "est": est, "se": se, "alpha": alpha, "two": two, "df": fl(df) if df is not None else float("nan"), "p": fl(p), "lo": fl(lo), "hi": fl(hi)}]


def binary(c, r):
    v = [float(r.randint(0, 1)) for _ in range(r.randint(1, 8))]
    z = r.random()
    if z < 0.3: v[r.randrange(len(v))] = float("nan")
    if z > 0.5: v[r.randrange(len(v))] = r.choice([2.0, -1.0, 0.5, 1e-9, 1 + 1e-6, float("inf")])
    if z < 0.1: v = [r.choice([0.0, 1.0])] * len(v)
    a = np.array(v)
    if all(x == x and abs(x) != float("inf") and x == int(x) for x in v) and r.random() < 0.5: a = a.astype(int)
    q = Quiet()
    q(utils.validate_binary, a, "dose")
    return [{"kind": "binary", "v": v, "raised": q.raised, "named": "dose" in q.msg}]


def reg(c, r):
    k = r.randint(1, 3)
    n = k + 2 + r.randint(1, 8)
    icpt = r.random() < 0.5
    X = np.array([[float(r.randint(-4, 4)) for _ in range(k)] for _ in range(n)])
    y = np.array([dy(r) for _ in range(n)])
    if r.random() < 0.4:       # the same numbers stored as integers
        y = np.round(y).astype(r.choice(["int64", "int8"]))
        X = (X + 4).astype(r.choice(["uint8", "int8", "int64"])) if r.random() < 0.5 else X.astype("int8")
    vk = r.choice(["hc1", "cluster", "hom"])
    g = [i % 3 for i in range(n)]
    kk = k + icpt
    alpha = r.choice([0.05, 0.1, 0.01])
    est = LinearRegression(include_intercept=icpt, robust=vk != "hom", cluster_ids=np.array(g) if vk == "cluster" else None, alpha=alpha, rank_deficient_action="silent")
    un = []
    for f in (lambda: est.get_coefficient(0), lambda: est.get_se(0), lambda: est.get_inference_batch([0]), lambda: est.predict(X)):
        q = Quiet()
        q(f)
        un.append(q.raised)
    q = Quiet()

    def go():
        est.fit(X, y)
        aa, ad, level = r.choice([None, 0.2, 0.02]), r.choice([None, 4, 60]), r.choice([0.05, 0.3, 0.001])
        idx = r.sample(range(kk), r.randint(1, kk))
        b = est.get_inference_batch(idx, alpha=aa, df=ad)
        new = np.array([[dy(r, -3, 3) for _ in range(k)] for _ in range(2)])
        F = np.column_stack([np.ones(n), X]) if icpt else X
        N = np.column_stack([np.ones(2), new]) if icpt else new
        rob = est.vcov_ if vk == "hom" else utils.compute_robust_se(F, est.residuals_, np.array(g) if vk == "cluster" else None)
        batch = []
        for i, v in b.items():
            lo, hi = ci(v.conf_int)
            batch.append({"at": int(i), "coef": fl(v.coefficient), "se": fl(v.se), "t": fl(v.t_stat), "p": fl(v.p_value), "lo": lo, "hi": hi, "df": fl(v.df), "alpha": fl(v.alpha),
                          "sig": bool(v.is_significant(level)), "own": bool(v.is_significant()), "stars": v.significance_stars()})
        return {"x": mat(F), "coef": [fl(est.get_coefficient(i)) for i in range(kk)], "se": [fl(est.get_se(i)) for i in range(kk)], "batch": batch, "asked": idx, "level": level,
                "askalpha": aa if aa is not None else alpha, "askdf": ad if ad is not None else n - kk, "all": [fl(v.coefficient) for v in est.get_all_inference()], "newx": mat(N), "pred": fls(est.predict(new)),
                "r2": fl(est.r_squared()), "r2adj": fl(est.r_squared(adjusted=True)), "r2fn": fl(compute_r_squared(y, est.residuals_)), "r2fnadj": fl(compute_r_squared(y, est.residuals_, adjusted=True, n_params=kk)), "rob": mat(rob)}
    o = q(go)
    ev = {"kind": "reg", "raised": q.raised, "y": fls(y), "g": g, "vkind": vk, "unfitted": un}
    return [{**ev, **(o or {})}]


def period(c, r):
    T = r.randint(3, 5)
    lab = r.choice([lambda t: t, lambda t: 2010 + t, lambda t: "w%d" % t])
    df = pd.DataFrame([(u, lab(t), int(u < 3), dy(r)) for u in range(6) for t in range(T)], columns=["u", "t", "d", "y"])
    post = [lab(t) for t in range(1, T) if r.random() < 0.6] or [lab(T - 1)]
    res = MultiPeriodDiD().fit(df, "y", "d", "t", post_periods=post)
    ok = []
    for p in post:
        q = Quiet()
        e = q(res.get_effect, p)
        if e is not None and e is res.period_effects[p] and e.period == p: ok.append(str(p))
    q = Quiet()
    q(res.get_effect, r.choice([lab(0), "nope", 99]))
    return [{"kind": "period", "periods": [str(p) for p in post], "ok": ok, "absent": q.raised}]


def record(c):
    return {"chain": chain, "sdid": sdid, "infer": infer, "binary": binary, "reg": reg, "period": period}[c["kind"]](c, random.Random("P30" + c["seed"]))
