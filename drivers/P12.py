import random
import numpy as np
import pandas as pd
from diff_diff import SyntheticDiD
from du import *

SPEC = "P12_SyntheticDiD"
RULE = ("synthetic DiD fits on random balanced panels (2-6 controls, 1-3 treated, any post periods, covariates, labels, row orders), bootstraps of 3-4 units whose "
        "resamples are all enumerated, placebo runs whose splits are all enumerated, and unusable panels")


def nontrivial(ev):
    return ev["kind"] == "repeat" or ev["raised"] == ""


def cost(c):
    return 6 if c["enum"] else 1


def cases(tier, rng):
    q = tier == "quick"
    for i in range(150 if q else 1500):
        r = random.Random("P12f%s/%d" % (rng.random(), i))
        yield mk("fit%d" % i, r, r.randint(1, 3), r.randint(1, 5), r.randint(2, 5), r.choice(["placebo", "placebo", "bootstrap"]), r.choice([10, 25]))
    for i in range(24 if q else 200):
        r = random.Random("P12b%s/%d" % (rng.random(), i))
        nt = r.choice([1, 1, 2])
        c = mk("boot%d" % i, r, nt, r.choice([2, 3]) if nt == 1 else 2, r.randint(2, 3), "bootstrap", 120, enum=True)
        c["lam"] = r.choice([2.0, 5.0])
        yield c
    for i in range(16 if q else 120):
        r = random.Random("P12p%s/%d" % (rng.random(), i))
        nt = r.choice([1, 2])
        yield mk("plac%d" % i, r, nt, r.choice([3, 4, 5]) if nt == 1 else r.choice([3, 4]), r.randint(2, 4), "placebo", 150)
    for i in range(30 if q else 200):
        r = random.Random("P12x%s/%d" % (rng.random(), i))
        c = mk("bad%d" % i, r, r.randint(1, 2), r.randint(1, 3), r.randint(2, 4), "placebo", 10)
        c["bad"] = r.choice(["nocontrol", "notreated", "postall", "postnone", "postunknown", "hole", "hole"])
        yield c


def mk(cid, r, nt, nc, np_, method, B, enum=False):
    nu = nt + nc
    d = [1] * nt + [0] * nc
    r.shuffle(d)
    sc = 1 if enum else r.choice([1, 2, 8])
    lev = 0 if enum else r.choice([0, 0, 0, 50, 4000])     # a common level does not matter
    rows = [(u, t) for u in range(nu) for t in range(np_)]
    if r.random() < 0.5:
        r.shuffle(rows)
    post = sorted(r.sample(range(np_), r.randint(1, np_ - 1)))
    ncov = 0 if enum else r.choice([0, 0, 0, 1])
    if r.random() < 0.5:
        r.shuffle(post)
    return {"id": cid, "nu": nu, "np": np_, "d": d, "rows": rows, "y": [lev + dy(r, -sc, sc) for _ in rows], "x": [[dy(r, -2, 2) for _ in rows] for _ in range(ncov)],
            "post": None if r.random() < 0.3 else post, "lam": r.choice([0.0, 0.0, 0.5, 2.0, 20.0, 200.0]), "zeta": r.choice([1.0, 1.0, 0.0, 0.5]), "method": method, "B": B,
            "alpha": r.choice([0.05, 0.1]), "seed": r.randint(0, 10 ** 6), "enum": enum, "lab": r.choice(["int", "str", "neg"]), "plab": r.choice([0, 2000]), "bad": ""}


def record(c):
    lab = {"int": lambda u: 5 * u + 3, "str": lambda u: "u%d" % (90 - u), "neg": lambda u: -u}[c["lab"]]
    d, rows, y, x, post = list(c["d"]), c["rows"], c["y"], c["x"], c["post"]
    if c["bad"] == "nocontrol":
        d = [1] * c["nu"]
    if c["bad"] == "notreated":
        d = [0] * c["nu"]
    if c["bad"] == "postall":
        post = list(range(c["np"]))
    if c["bad"] == "postnone":
        post = []
    if c["bad"] == "postunknown":
        post = [c["np"] + 7] + (post or [])
    if c["bad"] == "hole":
        h = c["seed"] % len(rows)
        rows, y, x = rows[:h] + rows[h + 1:], y[:h] + y[h + 1:], [v[:h] + v[h + 1:] for v in x]
    P = lambda t: c["plab"] + t
    df = pd.DataFrame({"id": [lab(u) for u, _ in rows], "t": [P(t) for _, t in rows], "D": [d[u] for u, _ in rows], "y": y})
    for k, col in enumerate(x):
        df["x%d" % k] = col

    def run(seed, q):
        est = SyntheticDiD(lambda_reg=c["lam"], zeta=c["zeta"], alpha=c["alpha"], variance_method=c["method"], n_bootstrap=c["B"], seed=seed)
        return q(est.fit, df, outcome="y", treatment="D", unit="id", time="t", post_periods=None if post is None else [P(t) for t in post],
                 covariates=["x%d" % k for k in range(len(x))] or None)
    q = Quiet()
    r = run(c["seed"], q)
    ev = {"kind": "fit", "nu": c["nu"], "np": c["np"], "unit": [u + 1 for u, _ in rows], "per": [t + 1 for _, t in rows], "d": d, "y": fls(y), "cov": [fls(v) for v in x],
          "post": [] if post is None else [t + 1 for t in post], "defpost": post is None, "lam": fl(c["lam"]), "zeta": fl(c["zeta"]), "alpha": fl(c["alpha"]), "method": c["method"],
          "B": c["B"], "enum": c["enum"], "raised": q.raised, "msg": q.raised + ": " + q.msg[:100], "allfail": "bootstrap iterations failed" in q.msg,
          "warned": any("Not enough control" in m for _, m in q.warnings), "res": "null"}
    if r is None:
        return [ev]
    lo, hi = ci(r.conf_int)
    inv = {lab(u): u for u in range(c["nu"])}
    w = [float("nan")] * c["nu"]
    for k, v in r.unit_weights.items():
        w[inv[k]] = fl(v)
    ev["res"] = {"att": fl(r.att), "se": fl(r.se), "tst": fl(r.t_stat), "p": fl(r.p_value), "lo": lo, "hi": hi, "nobs": int(r.n_obs), "ntr": int(r.n_treated), "nco": int(r.n_control),
                 "w": w, "pre": [int(t) - c["plab"] + 1 for t in r.pre_periods], "post": [int(t) - c["plab"] + 1 for t in r.post_periods],
                 "tw": [fl(v) for k, v in sorted(r.time_weights.items())] if list(r.time_weights) == list(r.pre_periods) else [],
                 "fit": fl(r.pre_treatment_fit), "draws": [] if r.placebo_effects is None else fls(r.placebo_effects), "nb": r.n_bootstrap, "method": r.variance_method}
    out = [ev]
    if c["id"].startswith(("boot", "plac")):
        z = [run(c["seed"], Quiet()), run(c["seed"] + 1, Quiet())]
        h = [[float(v).hex() for v in (o.placebo_effects if o is not None and o.placebo_effects is not None else [])] for o in [r] + z]
        if len(set(h[0])) > 3 and len(h[0]) > 20:
            out.append({"kind": "repeat", "a": h[0], "b": h[1], "c": h[2]})
    return out
