import random
import numpy as np
import runs
import vh
from du import *

SPEC = "P25_Affine"
RULE = ("every analysis run on a base data set and again after chains of changes of units and origin (outcome rescaled, negated and shifted, unit or period effects added, a constant effect added to "
        "treated cells, covariates rescaled) that its model absorbs; non-trivial when the base run answers")
CASE_TIMEOUT = 110


def nontrivial(ev):
    return ev["raised"] == ""


def cost(c):
    return 30 if c["run"].startswith(("trop", "sa.boot")) else 4


def design(tier):
    return [("Affine", "Affine_design.cfg")]


def generate(tier, work):
    return [vh.generate("Affine", "Affine_gen.cfg", work)]


def allowed(tr):
    out = []
    if tr.get("noaff"): return out
    if not tr.get("noscale"): out.append("scale")
    if tr.get("unit"): out.append("unit")
    if tr.get("time"): out.append("time")
    if tr.get("tau"): out.append("tau")
    if tr.get("cov"): out.append("cov")
    return out


def opts(name, r):
    tr = runs.R[name]
    k = dict(nu=r.choice([16, 18])) if tr.get("big") else dict(nu=5, T=4) if tr.get("small") else {}
    if tr.get("xfix"): k.update(xvar=False, nu=r.choice([12, 14]))
    if tr.get("ant"): k["mincoh"] = 2
    if tr.get("gapsok") and tr.get("unit") != "e" and not name.startswith("sa") and r.random() < 0.4: k["gaps"] = r.randint(1, 4)
    return k


def cases(tier, rng, scen):
    q = tier == "quick"
    yield {"id": "twfe-regressor-tau", "run": "twfe", "chain": ["tau"], "seed": "fixed", "o": {}}
    chains = sorted((s["chain"] for s in scen["Affine"]), key=str)
    for n in runs.names():
        al = allowed(runs.R[n])
        if not al: continue
        r = random.Random("P25/%s/%s" % (n, rng.random()))
        slow = n.startswith(("trop", "sa.boot"))
        k = (5 if slow else 11) if q else (20 if slow else 170)
        mine = [c for c in chains if len(c) > 1 and set(c) <= set(al)]
        seq = [["scale"]] * (3 if "scale" in al else 0) + [["cov"]] * (2 if "cov" in al else 0) + [[t] for t in al if t != "scale"]
        seq += [r.choice(mine) for _ in range(max(0, k - len(seq)))] if mine else []
        for i, ch in enumerate(seq):
            # the first rescalings are to units far away (micrograms, nanometres)
            yield {"id": "%s.%d" % (n, i), "run": n, "chain": ch, "far": i < 2 and ch == ["scale"], "farx": ch == ["cov"], "seed": "%s/%d/%d" % (n, i, r.randrange(10 ** 9)), "o": opts(n, r)}


def record(c):
    r = random.Random("P25r" + c["seed"])
    tr = runs.R[c["run"]]
    df = runs.base(tr["kind"], c["seed"], **c["o"])
    runs.setup(df)
    q = Quiet()
    a = q(tr["f"], df, runs.World()) or []
    d2 = df.copy()
    chain = []
    size = 1.0
    for s in c["chain"]:
        if s == "scale":
            k, b = r.choice([2.0, -1.0, 0.5, -3.0, 1024.0, 0.0625, -0.3, 7.7, 1e3, 1e-3]), r.choice([0.0, 0.0, 10.0, -3.5, 250.0])
            b *= min(1.0, abs(k))
            if c.get("far"): k, b = r.choice(([] if c["run"].startswith("trop") else [1e-6, -1e-7, 2.0 ** -30, 3e-9]) + [1e6, -1e8, 2.0 ** 40]), 0.0   # TROP's tol is in units of the outcome
            d2["y"] = k * d2["y"] + b
            chain.append({"s": s, "a": k, "b": b})
        elif s in ("unit", "time"):
            col = tr.get("timecol", s) if s == "time" else s
            e = {u: dy(r, -6, 6, 4) for u in df[col].unique()}
            d2["y"] = d2["y"] + df[col].map(e)
            chain.append({"s": s, "w": tr[s]})
        elif s == "tau":
            k = r.choice([1.0, -2.5, 8.0, 0.125])
            cell = df["dp"] if not tr.get("big") else df["d"] * df["part"] * df["post"]
            d2["y"] = d2["y"] + k * cell
            chain.append({"s": s, "c": k})
        else:
            k, b = r.choice([2.0, -1.0, 0.25, -3.0, 10.0]), r.choice([0.0, 5.0, -2.0])
            if c.get("farx"): k, b = r.choice([1e-4, -1e-5, 1e4, -1e5, 1e-6, 1e6]), 0.0
            d2["x"] = k * d2["x"] + b
            chain.append({"s": s})
        size = max(size, float(d2["y"].abs().max()))
    q2 = Quiet()
    b = q2(tr["f"], d2, runs.World()) or []
    # ties between changes survive exact arithmetic only; verdicts follow the p-values a step moves
    exact = all(s["s"] == "scale" and s["b"] == 0 and s["a"] in (2.0, -1.0, 0.5, 1024.0, 0.0625) for s in chain)
    moved = any(s.get("w") == "e" for s in chain)
    for s in (a, b):
        for x in s:
            if (x["k"].startswith("ks_") and not exact) or (moved and x["v"] in ("True", "False")): x["role"] = "flag"
    final = float(d2["y"].abs().max())
    small = 1.0
    for s in chain:
        if s["s"] == "scale": small *= min(1.0, abs(s["a"]))
    tol = (1e-5 if tr.get("loose") else 1e-9) * max(final, 1.0 * small)
    return [{"run": c["run"], "chain": chain, "raised": q.raised, "raised2": q2.raised, "loose": bool(tr.get("loose")), "tol": tol, "size": final if c.get("far") else size, "a": a, "b": b}]
