import random
import numpy as np
import pandas as pd
import standin
import vh
from du import *

SPEC = "P28_Backend"
RULE = ("the library imported under every value of DIFF_DIFF_BACKEND with no extension, a complete one and one lacking each routine; pairs of calls with every reply of the extension (enumerated by TLC) "
        "to least squares, covariances, TROP searches and bootstraps; every analysis in fast and in pure Python mode; multipliers handed to the staggered bootstrap; non-trivial when the library was imported")
ASSUMPTIONS = ["the compiled extension cannot be built offline: a stand-in with its documented interface (argument types checked) replies in its place"]
CASE_TIMEOUT = 150
INF = float("inf")


def nontrivial(ev):
    return ev["kind"] != "mode" or ev["raised"] == ""


def cost(c):
    return {"mode": 3, "calls": 2, "run": 30 if c.get("run", "").startswith(("trop", "sa.boot")) else 6, "boots": 8, "qp": 2}[c["kind"]]


def design(tier):
    return [("Backend", "Backend_design.cfg")]


def generate(tier, work):
    return [vh.generate("Backend", "Backend_gen.cfg", work)]


def names():
    import runs
    return [n for n in runs.names() if n not in ("cs.boot", "cs.boot.webb", "rank") and not n.startswith("sdid")]     # multipliers: boots; synthetic weights: qp


def cases(tier, rng, scen):
    q = tier == "quick"
    sc = scen["Backend"]
    for s in sorted((s for s in sc if "env" in s), key=str):
        r = random.Random("P28m%s%s%s" % (s["env"], s["lib"], rng.random()))
        yield {"id": "mode.%s.%s" % (s["env"], s["lib"]), "kind": "mode", "env": s["env"], "lib": s["lib"], "run": r.choice(["did", "twfe", "mp", "sdid.placebo", "cs.reg", "cs.boot", "sa", "trop.dim"])}
    calls = sorted((s["calls"] for s in sc if "calls" in s), key=str)
    one = [c for c in calls if len(c) == 1]
    two = [c for c in calls if len(c) == 2]
    fam = lambda c: "lin" if c["op"] in ("ols", "vcov") else c["op"]
    two = [c for c in two if fam(c[0]) == fam(c[1])]
    two = rng.sample(two, min(len(two), 220 if q else 100000))
    for i, c in enumerate(one + two):
        for k in range((3 if q else 6) if len(c) == 1 else 1):
            yield {"id": "calls%d.%d" % (i, k), "kind": "calls", "calls": c, "seed": "%d/%d/%s" % (i, k, rng.random())}
    for n in names():
        slow = n.startswith(("trop", "sa.boot"))
        for k in range((1 if slow else 3) if q else (6 if slow else 40)):
            yield {"id": "run.%s.%d" % (n, k), "kind": "run", "run": n, "seed": "%s/%d/%s" % (n, k, rng.random()),
                   "trouble": [] if k % 3 == 0 else sorted(rng.sample(range(6), rng.randint(1, 3)))}
    for k in range(14 if q else 200):
        yield {"id": "boots%d" % k, "kind": "boots", "seed": "%d/%s" % (k, rng.random())}
    for k in range(24 if q else 300):
        yield {"id": "qp%d" % k, "kind": "qp", "seed": "%d/%s" % (k, rng.random())}


def record(c):
    return {"mode": mode, "calls": calls_, "run": run_, "boots": boots, "qp": qp}[c["kind"]](c)


def mode(c):
    st = standin.Standin()
    st.value["loo"] = (0.25, 0.0, INF, 1.0)
    st.value["draws"] = [1.0 + k / 16 for k in range(12)]
    m = None if c["lib"] == "absent" else st.module(None if c["lib"] == "complete" else c["lib"])
    q = Quiet()
    z = q(standin.Lib, None if c["env"] == "unset" else c["env"], m, ["runs"])
    ev = {"kind": "mode", "env": c["env"], "lib": c["lib"], "raised": q.raised, "has": "null", "used": 0, "ran": ""}
    if z is not None:
        runs = z.mods[0]
        ev["has"] = str(bool(z.dd.HAS_RUST_BACKEND))
        tr = runs.R[c["run"]]
        df = runs.base(tr["kind"], "P28", nu=5, T=4) if tr.get("small") else runs.base(tr["kind"], "P28")
        runs.setup(df)
        q2 = Quiet()
        q2(tr["f"], df, runs.World())
        ev["used"], ev["ran"] = len(st.calls), q2.raised
    return [ev]


def both(also=()):
    """the library in pure Python and in fast mode"""
    py = standin.Lib("python", None, also)
    st = standin.Standin()
    fast = standin.Lib("auto", st.module(), also)
    return py, fast, st


def news(q, ref):
    seen = {m for _, m in ref.warnings}
    return [m for _, m in q.warnings if m not in seen]


# ---------------------------------------------------------------- single routines
def calls_(c):
    py, fast, st = both(["diff_diff.linalg"])
    r = random.Random("P28c" + c["seed"])
    out = []
    for k in c["calls"]:
        st.calls.clear(), st.script.clear()
        out.append((lin if k["op"] in ("ols", "vcov") else trop)(k, r, py, fast, st))
    return out


def flat(x):
    if x is None: return []
    if isinstance(x, tuple): return [v for y in x for v in [float(len(flat(y)))] + flat(y)]
    return fls(x)


def lin(k, r, py, fast, st):
    n, p = r.randint(5, 12), r.randint(1, 4)
    while True:
        X = np.array([[1.0] + [float(r.randint(-4, 4)) for _ in range(p - 1)] for _ in range(n)])
        if np.linalg.matrix_rank(X) == p: break
    if k["rank"] == "deficient":
        X = np.column_stack([X, X @ np.array([float(r.choice([-1, 1, 2])) for _ in range(p)])])
        X = X[:, r.sample(range(X.shape[1]), X.shape[1])]
    y = np.array([dy(r) for _ in range(n)])
    g = None
    if r.random() < 0.6:
        lab = r.choice([["a", "b", "c", "dd"], [3, 1, 70, 2], [10.5, 2.0, -1.0, 4.0]])
        g = np.array([r.choice(lab) for _ in range(n)], dtype=object if isinstance(lab[0], str) and r.random() < 0.5 else None)
        if len(set(g.tolist())) < 2: g[0], g[1] = lab[0], lab[1]
    shape = r.choice(["plain", "plain", "fortran", "slice", "int"])
    if shape == "fortran": X = np.asfortranarray(X)
    if shape == "slice": X = np.repeat(X, 2, axis=0)[::2]
    if shape == "int" and k["rank"] == "full": X = X.astype(int)
    fitted = r.random() < 0.4

    def do(lib, q):
        L = lib.on().mods[0]
        if k["op"] == "ols":
            return q(L.solve_ols, X, y, cluster_ids=g, return_vcov=k["vc"], return_fitted=fitted, rank_deficient_action=act, skip_rank_check=k["skip"])
        Xf = np.asarray(X, dtype=float)
        u = y - Xf @ np.linalg.lstsq(Xf, y, rcond=None)[0]
        return q(L.compute_robust_vcov, Xf, u, g)
    act = r.choice(["warn", "silent"])
    q0, q1 = Quiet(), Quiet()
    a = do(py, q0)
    nm = {"ols": "solve_ols", "vcov": "compute_robust_vcov"}[k["op"]]
    st.script[nm] = [k["reply"]]
    b = do(fast, q1)
    mine = [x for n_, x in st.calls if n_ == nm]
    e = dict(k)
    e.update(kind="lin", a=flat(a), b=flat(b), raised0=q0.raised, raised=q1.raised, told=len(news(q1, q0)), reached=len(mine), fitted=fitted,
             X=mat(X), y=fls(y), g="null" if g is None else [str(v) for v in g],
             aX="null" if not mine else mat(mine[0][0]), ay=[] if not mine or k["op"] == "vcov" else fls(mine[0][1]),
             ag="null" if not mine or mine[0][2] is None else [int(v) for v in mine[0][2]], avc=bool(mine[0][3]) if mine else True)
    return e


# ---------------------------------------------------------------- TROP
def panel(r, joint):
    T, n = r.randint(4, 5), r.randint(4, 6)
    s = T - r.randint(1, 2)
    D = [[0] * n for _ in range(T)]
    ntr = r.randint(1, 2)
    for i in range(ntr):
        st = s if joint else r.randint(s, T - 1)
        for t in range(st, T): D[t][i] = 1
    rows = [(i, t) for i in range(n) for t in range(T)]
    if r.random() < 0.4: rows.remove((n - 1, r.randint(1, T - 2)))
    Y = [[dy(r, -3, 3, 8) for _ in range(n)] for _ in range(T)]
    r.shuffle(rows)
    return T, n, D, Y, rows


def trop(k, r, py, fast, st):
    joint = k["op"].endswith("joint")
    loo = k["op"].startswith("loo")
    T, n, D, Y, rows = panel(r, joint)
    df = pd.DataFrame({"id": ["u%d" % i for i, _ in rows], "t": [t + 2000 for _, t in rows], "D": [D[t][i] for i, t in rows], "y": [Y[t][i] for i, t in rows]})
    grid = [0.0, 0.25, 0.5, 1.0, INF]
    gt, gu = r.sample(grid, 2), r.sample(grid, 2)
    gn = [INF] if r.random() < 0.7 else [INF, 1e10]
    pick = (r.choice(gt), r.choice(gu), r.choice(gn))
    if not loo: gt, gu, gn = [pick[0]], [pick[1]], [pick[2]]
    B = r.choice([10, 11]) if not loo else 10
    kw = dict(method="joint" if joint else "twostep", max_iter=200, tol=1e-10, alpha=0.1, variance_method="jackknife" if loo else "bootstrap", n_bootstrap=B,
              seed=r.choice([r.randint(0, 10 ** 6), r.randint(0, 10 ** 6), 0]), max_loocv_samples=1000)

    def fit(lib, gt, gu, gn, q):
        return q(lib.on().dd.TROP(lambda_time_grid=gt, lambda_unit_grid=gu, lambda_nn_grid=gn, **kw).fit, df, "y", "D", "id", "t")

    def res(x):
        return "null" if x is None else {"att": fl(x.att), "se": fl(x.se), "p": fl(x.p_value), "lt": fl(x.lambda_time), "lu": fl(x.lambda_unit), "ln": fl(x.lambda_nn),
                                         "score": fl(x.loocv_score), "draws": [] if x.bootstrap_distribution is None else fls(x.bootstrap_distribution)}
    q0, q1, q2 = Quiet(), Quiet(), Quiet()
    full = fit(py, gt, gu, gn, q0)
    fix = fit(py, [pick[0]], [pick[1]], [pick[2]], q2)
    st.value["loo"] = pick + (dy(r, 1, 5, 8),)
    st.value["draws"] = draws = [dy(r, -2, 2, 16) for _ in range(B)]
    ln, bn = ("loocv_grid_search_joint", "bootstrap_trop_variance_joint") if joint else ("loocv_grid_search", "bootstrap_trop_variance")
    st.script[ln if loo else bn] = [k["reply"]]
    if not loo: st.script[ln] = ["error"]
    b = fit(fast, gt, gu, gn, q1)
    A = [x for m, x in st.calls if m == (ln if loo else bn)]
    units = sorted({i for i, _ in rows})
    seen = set(rows)
    a = A[0] if A else {}
    put = lambda v: "null" if v is None else mat(v)
    e = dict(k)
    e.update(kind="trop", raised=q1.raised, raised0=q0.raised, msg=q1.msg[:100], told=len(news(q1, q2 if loo and k["reply"] in ("ok", "some") else q0)), reached=len(A), full=res(full), fix=res(fix), fast=res(b), B=B,
             pick=fls(pick), score=fl(st.value["loo"][3]), draws=fls(draws[:6] if k["reply"] == "few" else draws), Y=[[fl(Y[t][i]) if (i, t) in seen else fl("nan") for i in units] for t in range(T)],
             D=[[D[t][i] if (i, t) in seen else 0 for i in units] for t in range(T)], gt=fls(gt), gu=fls(gu), gn=fls(gn), mx=kw["max_loocv_samples"], it=kw["max_iter"], tol=fl(kw["tol"]), seed=kw["seed"],
             aY=put(a.get("Y")), aD=put(a.get("D")), amask=put(a.get("mask")), adist=put(a.get("dist")), agt=fls(a.get("gt", [])), agu=fls(a.get("gu", [])), agn=fls(a.get("gn", [])),
             amx=a.get("mx", 0), ait=a.get("it", 0), atol=fl(a.get("tol", 0)), aseed=a.get("seed", 0), alam=fls(a.get("lam", [])), aB=a.get("B", 0))
    return e


# ---------------------------------------------------------------- whole analyses
def run_(c):
    n = c["run"]
    py, fast, st = both(["runs"])
    tr = py.mods[0].R[n]
    r = random.Random("P28r" + c["seed"])
    o = dict(nu=r.choice([16, 18])) if tr.get("big") else dict(nu=5, T=4) if tr.get("small") else {}
    if tr.get("xfix"): o.update(xvar=False, nu=r.choice([12, 14]))
    if tr.get("ant"): o["mincoh"] = 2
    df = py.mods[0].base(tr["kind"], c["seed"], **o)
    res, qs = [], []
    for lib, pure in ((py, True), (fast, False)):
        m = lib.on().mods[0]
        m.setup(df)
        # the search and its bootstrap are not the stand-in's to answer here
        st.script.clear()
        st.script.update({k: ["error"] * 10000 for k in ("loocv_grid_search", "loocv_grid_search_joint", "bootstrap_trop_variance", "bootstrap_trop_variance_joint")})
        if not pure:
            plan = ["unstable" if i in c["trouble"] else "ok" for i in range(7)]
            st.script["solve_ols"], st.script["compute_robust_vcov"] = list(plan), list(plan)
        q = Quiet()
        res.append(q(m.R[n]["f"], df.copy(), m.World()) or [])
        qs.append(q)
    given_up = sum(1 for k, v in st.script.items() if k in ("solve_ols", "compute_robust_vcov") for i in range(7 - len(v)) if i in c["trouble"])
    return [{"kind": "run", "run": n, "loose": bool(tr.get("loose")), "raised0": qs[0].raised, "raised": qs[1].raised, "a": res[0], "b": res[1], "used": len(st.calls),
             "given_up": given_up, "told": sum("numerical instability" in m for m in news(qs[1], qs[0]))}]


# ---------------------------------------------------------------- multipliers
def boots(c):
    py, fast, st = both(["cs"])
    r = random.Random("P28b" + c["seed"])
    cs = py.mods[0]
    p = cs.rand_panel(r, r.randint(5, 8), r.randint(3, 4), miss=r.choice([0, 0, 0.1]), maxlate=0, never=2)
    df = cs.frame(p)
    wt = r.choice(["rademacher", "mammen", "webb"])
    opt = dict(control_group=r.choice(["never_treated", "not_yet_treated"]), base_period=r.choice(["varying", "universal"]), estimation_method="reg")
    n = df["id"].nunique()
    B = 12
    seed = r.randint(0, 10 ** 6)

    def fit(lib, B_, q, seed=seed):
        return q(lib.on().dd.CallawaySantAnna(n_bootstrap=B_, bootstrap_weights=wt, seed=seed, alpha=0.1, rank_deficient_action="silent", **opt).fit, df, outcome="y", unit="id", time="t", first_treat="g", aggregate="all")

    def quants(x):
        if x is None: return []
        s = [("overall", x.overall_att, x.overall_se)] + [("e%s" % k, v["effect"], v["se"]) for k, v in sorted((x.event_study_effects or {}).items()) if v.get("n_groups", 1) != 0]
        s += [("g%s" % k, v["effect"], v["se"]) for k, v in sorted((x.group_effects or {}).items())]
        return [{"k": k, "eff": fl(e), "se": fl(v)} for k, e, v in s]
    q0 = Quiet()
    ana = fit(py, 0, q0)
    if ana is None or any(not np.isfinite(d["effect"]) for d in ana.group_time_effects.values()): return []
    mult = [1.0 if i % 2 else -1.0 for i in range(B)]
    one, args = [], []
    for u in range(n):
        st.value["weights"] = lambda b, m, u=u: [[mult[i] if j == u else 0.0 for j in range(m)] for i in range(b)]
        st.calls.clear()
        q = Quiet()
        x = fit(fast, B, q)
        args += [list(a) for k, a in st.calls if k == "generate_bootstrap_weights_batch"]
        one.append({"raised": q.raised, "q": quants(x), "dist": [] if x is None else fls(x.bootstrap_results.bootstrap_distribution)})
    W = [[float(r.randint(-3, 3)) / 2 for _ in range(n)] for _ in range(B)]
    st.value["weights"] = lambda b, m: [W[i][:m] for i in range(b)]
    x = fit(fast, B, Quiet())
    st.calls.clear()
    fit(fast, B, Quiet(), seed + 1)
    other = [list(a) for k, a in st.calls if k == "generate_bootstrap_weights_batch"]
    return [{"kind": "boots", "n": n, "B": B, "wt": wt, "mult": mult, "ana": quants(ana), "one": one, "W": W, "dist": [] if x is None else fls(x.bootstrap_results.bootstrap_distribution),
             "ncalls": len(args), "aB": sorted({a[0] for a in args}), "an": sorted({a[1] for a in args}), "awt": sorted({a[2] for a in args}), "seeds": sorted({str(a[3]) for a in args}),
             "oseeds": sorted({str(a[3]) for a in other})}]


# ---------------------------------------------------------------- synthetic weights
def qp(c):
    lib_st = standin.Standin()
    lib = standin.Lib("auto", lib_st.module())
    r = random.Random("P28q" + c["seed"])
    nc, nt, T = r.randint(2, 5), r.randint(1, 2), r.randint(3, 6)
    post = list(range(r.randint(1, T - 1), T))
    nu = nc + nt
    tr = set(r.sample(range(nu), nt))
    big = r.choice([0, 0, 1000])
    Y = [[dy(r, -3, 3, 8) + big for _ in range(T)] for _ in range(nu)]
    rows = [(u, t) for u in range(nu) for t in range(T)]
    r.shuffle(rows)
    df = pd.DataFrame({"id": ["u%d" % u for u, _ in rows], "t": [t for _, t in rows], "D": [int(u in tr) for u, _ in rows], "y": [Y[u][t] for u, t in rows]})
    w = [r.choice([0.0, 1e-8, 0.25, 0.5, 1.0]) for _ in range(nc)]
    if not any(v > 1e-3 for v in w): w[0] = 0.5
    lib_st.value["qp"] = w
    lam = r.choice([0.0, 0.5, 2.0])
    q = Quiet()
    x = q(lib.on().dd.SyntheticDiD(lambda_reg=lam, zeta=1.0, variance_method=r.choice(["placebo", "bootstrap"]), n_bootstrap=3, seed=1).fit, df, outcome="y", treatment="D", unit="id", time="t", post_periods=post)
    A = [a for n, a in lib_st.calls if n == "compute_synthetic_weights" and a[0].shape == (T - len(post), nc)]
    a = A[0] if A else None
    e = {"kind": "qp", "raised": q.raised, "Y": [fls(v) for v in Y], "co": [u + 1 for u in range(nu) if u not in tr], "tt": [u + 1 for u in sorted(tr)], "pre": list(range(1, T - len(post) + 1)), "post": [t + 1 for t in post],
         "lam": fl(lam), "w": fls(w), "A": "null" if a is None else mat(a[0]), "b": [] if a is None else fls(a[1]), "alam": fl(-1 if a is None else a[2]), "uw": [], "tw": [], "att": fl("nan")}
    if x is not None:
        e.update(uw=[fl(x.unit_weights["u%d" % (u - 1)]) for u in e["co"]], tw=[fl(x.time_weights[t - 1]) for t in e["pre"]], att=fl(x.att))
    return [e]
