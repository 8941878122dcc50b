import random
import numpy as np
import pandas as pd
import runs
import vh
from du import *

SPEC = "P31_Sample"
RULE = ("every deterministic analysis run on a base data set and again on the samples that chains of growth (copies of every unit, units of another cohort, a later period) make of it; "
        "non-trivial when the base run answers")
CASE_TIMEOUT = 110
SKIP = ("sdid", "trop", "placebo.perm", "placebo.group", "placebo.loo", "rank", "pt.robust")       # penalties, resampling and rankings depend on the size of the sample


def nontrivial(ev):
    return ev["raised"] == ""


def cost(c):
    return 6


def design(tier):
    return [("Sample", "Sample_design.cfg")]


def generate(tier, work):
    return [vh.generate("Sample", "Sample_gen.cfg", work)]


def names():
    return [n for n in runs.names() if not n.startswith(SKIP) and not runs.R[n].get("rs")]


def allowed(n):
    out = ["copy"]
    if n.startswith(("cs.", "sa")) and n != "sa.cov" and runs.R[n]["kind"] == "stag":       # common slopes are about everyone
        out.append("period")
        if n not in ("cs.reg.nyt", "cs.ant"): out.append("cohort")
    if n in ("bacon",): out.append("cohort")
    if n in ("mp", "mp.cov0"): out.append("period")
    return out


def opts(n, r):
    tr = runs.R[n]
    k = dict(nu=r.choice([16, 18])) if tr.get("big") else {}
    if tr.get("xfix"): k.update(xvar=False, nu=r.choice([12, 14]))
    if tr.get("ant"): k["mincoh"] = 2
    if "cohort" in allowed(n): k["T"] = 7
    if tr.get("gapsok") and not tr.get("xfix") and not n.startswith("sa") and r.random() < 0.4: k["gaps"] = r.randint(1, 4)
    return k


def cases(tier, rng, scen):
    q = tier == "quick"
    chains = sorted((s["chain"] for s in scen["Sample"]), key=str)
    for n in names():
        al = allowed(n)
        mine = [c for c in chains if len(c) > 1 and set(c) <= set(al)]
        r = random.Random("P31/%s/%s" % (n, rng.random()))
        for i in range(1 if q else 4):
            yield {"id": "%s.size%d" % (n, i), "run": n, "curve": True, "seed": "%s/c%d/%d" % (n, i, r.randrange(10 ** 9)), "o": opts(n, r)}
        seq = [["copy"]] * 2 + [[a] for a in al] * 2
        seq += [r.choice(mine) for _ in range(max(0, (8 if q else 90) - len(seq)))]
        for i, ch in enumerate(seq):
            yield {"id": "%s.%d" % (n, i), "run": n, "chain": ch, "many": ch == ["copy"] and i == 0, "seed": "%s/%d/%d" % (n, i, r.randrange(10 ** 9)), "o": opts(n, r)}


def copies(df, m, r):
    parts = [df]
    step = int(df["unit"].max()) + 1
    rstep = int(df["region"].max()) + 1
    for k in range(1, m):
        d = df.copy()
        d["unit"] += k * step
        d["region"] += k * rstep
        parts.append(d)
    out = pd.concat(parts, ignore_index=True)
    if r.random() < 0.5:
        out = out.sample(frac=1.0, random_state=r.randrange(1000)).reset_index(drop=True)
    return out


def grow(df, s, m, r):
    if s == "copy":
        return copies(df, m, r)
    if s == "cohort":
        free = [int(t) for t in sorted(df["time"].unique())[1:] if t not in set(df["ft"])]
        if not free: return None
        g = r.choice(free)
        like = df[df["unit"] == df["unit"].iloc[0]]
        new = []
        u0 = int(df["unit"].max()) + 1
        for u in range(u0, u0 + r.randint(1, 3)):
            x = dy(r, -1, 1, 4)
            for t in sorted(df["time"].unique()):
                new.append({**{c: like[c].iloc[0] for c in df.columns}, "unit": u, "time": int(t), "y": dy(r, -9, 9, 8), "x": x, "d": 1, "ft": g, "dp": int(t >= g), "post": int(df.loc[df.time == t, "post"].iloc[0])})
        return pd.concat([df, pd.DataFrame(new)[df.columns]], ignore_index=True)
    last = int(df["time"].max())
    new = df.groupby("unit", as_index=False).first()[list(df.columns)]
    new["time"], new["post"] = last + 1, 1
    new["y"] = [dy(r, -9, 9, 8) for _ in range(len(new))]
    new["dp"] = (new["ft"] > 0).astype(int)
    return pd.concat([df, new], ignore_index=True)


VERDICT = ("equivalence_margin", "equivalent", "parallel_trends_plausible")       # follow from standard errors
COUNT = ("n_obs", "n_treated", "n_control", "n_treated_units", "n_control_units", "n_treated_eligible", "n_treated_ineligible", "n_control_eligible", "n_control_ineligible", "n_never_treated")


def view(run, out, chain, extra):
    """outputs as the model sees them"""
    res = []
    sharp = run.startswith("cs.")
    for x in out:
        k, role, v = x["k"], x["role"], x["v"]
        if k in VERDICT: continue
        cell = k.startswith("att") and "," in k or k.startswith("cohort") or (run == "bacon" and ":" in k) or (run == "mp" and k.startswith("period") and k != "periods")
        e = {"k": k, "cell": bool(cell), "sharp": sharp}
        if run == "bacon" and role == "se": role = "eff"       # a residual, not a standard error
        if role in ("eff", "w", "r2", "se"):
            res.append({**e, "role": role, "v": v})
        elif role == "ci":
            lo, hi = v
            if np.isfinite(lo) and np.isfinite(hi): res.append({**e, "cell": False, "role": "mid", "v": (lo + hi) / 2})
        elif role == "n" and k in COUNT:
            if v is not None: res.append({**e, "role": "count", "v": fl(v)})
        elif role == "n" and run.startswith("bacon") and k.endswith(".n"):
            res += [{**e, "k": k + str(i), "cell": False, "role": "count", "v": fl(z)} for i, z in enumerate(v)]
        elif role == "n" and k != "n_clusters":
            res.append({**e, "role": "same", "v": v if isinstance(v, (str, type(None))) else str(v)})
    return res


def record(c):
    r = random.Random("P31r" + c["seed"])
    tr = runs.R[c["run"]]
    for i in range(20):
        df = runs.base(tr["kind"], c["seed"] + "." * i, **c["o"])
        if not tr.get("xfix") or df[df.ft == 0].groupby("unit")["x"].first().nunique() > 2: break       # a regression on the controls alone must be determined
    runs.setup(df)
    q = Quiet()
    a = q(tr["f"], df, runs.World()) or []
    tol = dict(loose=bool(tr.get("loose")), tol=(1e-5 if tr.get("loose") else 1e-8) * float(df["y"].abs().max()))
    if c.get("curve"):
        s, q2 = [], Quiet()
        for m in (20, 40, 80):
            if q2.raised == "": s.append(view(c["run"], q2(tr["f"], copies(df, m, r), runs.World()) or [], None, None))
        return [{"kind": "curve", "run": c["run"], "raised": q.raised, "raised2": q2.raised, "s": s, **tol}]
    chain, d2 = [], df
    for s in c["chain"]:
        m = r.choice([25, 40]) if c["many"] else r.choice([2, 3])
        d2 = grow(d2, s, m, r)
        if d2 is None: return []
        chain.append({"s": s, "m": m})
    if "period" in c["chain"]: runs.setup(d2)
    q2 = Quiet()
    b = q2(tr["f"], d2, runs.World()) or []
    runs.setup(df)
    return [{"kind": "grow", "run": c["run"], "chain": chain, "raised": q.raised, "raised2": q2.raised, **tol, "slack": 1.0001,
             "a": view(c["run"], a, chain, False), "b": view(c["run"], b, chain, True)}]
