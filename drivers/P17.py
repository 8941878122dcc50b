import random
import numpy as np
import pandas as pd
import diff_diff
from diff_diff import PowerAnalysis, compute_mde, compute_power, compute_sample_size, simulate_power
from diff_diff.prep import generate_did_data
import vh
from du import *

SPEC = "P17_Power"
RULE = ("analytical power, minimum effects, sample sizes and curves on random designs; simulated power replaying every behaviour of the simulation state machine with a "
        "scripted estimator, and with the real estimators whose fits are recorded")


def generate(tier, work):
    return [dict(vh.generate("PowerSim", "PowerSim_%s.cfg" % k, work), name=k) for k in ("2x2", "3x1")]


def nontrivial(ev):
    return ev.get("raised") == "" and ev["kind"] != "args"


def cost(c):
    return 8 if c.get("real") else 1


def cases(tier, rng, scen):
    q = tier == "quick"
    for i in range(300 if q else 4000):
        r = random.Random("P17/%d/%s" % (i, rng.random()))
        kind = r.choice(["power", "mde", "size", "curve", "sizes"])
        yield {"id": "a%d" % i, "kind": kind, "nt": r.randint(1, 60), "nc": r.randint(1, 60), "npre": r.choice([1, 1, 2, 3]), "npost": r.choice([1, 1, 2, 4]),
               "sigma": r.choice([0.5, 1.0, 3.25]), "rho": r.choice([0.0, 0.25, 0.5, 1.0]), "alpha": r.choice([0.05, 0.1, 0.01]), "target": r.choice([0.8, 0.9, 0.3]),
               "alt": r.choice(["two-sided", "two-sided", "greater", "less"]), "effect": r.choice([0.0, 0.125, 0.5, 2.0, -0.75, 50.0]) if r.random() < 0.8 else r.choice([1e-7, 0.003]),
               "frac": r.choice([0.5, 0.5, 0.25, 0.75, 0.1]), "grid": r.random() < 0.5, "short": r.random() < 0.4}
    for name, n in (("2x2", 110), ("3x1", 60)):
        sc = scen[name]
        for i, s in enumerate(rng.sample(sc, min(len(sc), n if q else 10 ** 6))):
            r = random.Random("P17s%s%d" % (name, i))
            yield {"id": "sim_%s_%d" % (name, i), "kind": "sim", "real": None, "runs": s["runs"], "nsim": 2 if name == "2x2" else 3, "neff": 2 if name == "2x2" else 1,
                   "alpha": r.choice([0.05, 0.1]), "seed": r.randint(0, 999), "true": r.choice([0, 1, 2]), "nanp": r.random() < 0.1}
    for i, e in enumerate(["DifferenceInDifferences", "TwoWayFixedEffects", "MultiPeriodDiD", "CallawaySantAnna"] * (4 if q else 20)):
        r = random.Random("P17r%s%d" % (e, i))
        yield {"id": "real_%d_%s" % (i, e), "kind": "sim", "real": e, "nsim": r.randint(4, 8), "neff": r.randint(1, 3), "alpha": r.choice([0.05, 0.2, 0.4, 0.01]), "sigma": r.choice([0.75, 4.0]), "own": r.choice([0.05, 0.3]), "seed": r.randint(0, 999),
               "true": r.choice([0, 1, 2]), "nanp": False}
    for i, kw in enumerate([{"alpha": 0.0}, {"alpha": 1.0}, {"power": 0.0}, {"power": 1.5}, {"alternative": "both"}, {"alternative": None}]):
        yield {"id": "args%d" % i, "kind": "args", "kw": kw}


def record(c):
    if c["kind"] == "args":
        q = Quiet()
        q(PowerAnalysis, **c["kw"])
        return [{"kind": "args", "what": str(c["kw"]), "raised": q.raised}]
    return sim(c) if c["kind"] == "sim" else analytic(c)


def analytic(c):
    pa = PowerAnalysis(alpha=c["alpha"], power=c["target"], alternative=c["alt"])
    n = {"n_pre": c["npre"], "n_post": c["npost"], "rho": c["rho"]}
    q = Quiet()
    short = c["short"] and c["alt"] == "two-sided"
    ev = {"kind": c["kind"], "effect": fl(c["effect"]), "frac": fl(c["frac"]), "grid": [], "what": "", "isshort": short, "short": "null", "res": "null",
          "d": {"nt": fl(c["nt"]), "nc": fl(c["nc"]), "npre": c["npre"], "npost": c["npost"], "sigma": fl(c["sigma"]), "rho": fl(c["rho"]), "alpha": fl(c["alpha"]),
                "target": fl(c["target"]), "alt": c["alt"]}}
    if c["kind"] == "power":
        r = q(pa.power, c["effect"], c["nt"], c["nc"], c["sigma"], **n)
        if short:
            ev["short"] = fl(compute_power(c["effect"], c["nt"], c["nc"], c["sigma"], alpha=c["alpha"], **n))
            ev["d"]["target"] = fl(0.8) if False else ev["d"]["target"]
    elif c["kind"] == "mde":
        r = q(pa.mde, c["nt"], c["nc"], c["sigma"], **n)
        if short:
            ev["short"] = fl(compute_mde(c["nt"], c["nc"], c["sigma"], power=c["target"], alpha=c["alpha"], **n))
    elif c["kind"] == "size":
        r = q(pa.sample_size, c["effect"], c["sigma"], treat_frac=c["frac"], **n)
        if short:
            ev["short"] = fl(compute_sample_size(c["effect"], c["sigma"], power=c["target"], alpha=c["alpha"], treat_frac=c["frac"], **n))
    else:
        r = None
        if c["kind"] == "curve":
            g = [0.0, 0.5, 1.25, -1.0] if c["grid"] else None
            df = q(pa.power_curve, c["nt"], c["nc"], c["sigma"], effect_sizes=g, **n)
            ev["what"], x = "effects", "effect_size"
        else:
            g = [4, 10, 25, 60, 61] if c["grid"] else None
            df = q(pa.sample_size_curve, c["effect"] if abs(c["effect"]) > 0.01 else 0.5, c["sigma"], sample_sizes=g, treat_frac=c["frac"], **n)
            ev["effect"] = fl(c["effect"] if abs(c["effect"]) > 0.01 else 0.5)
            ev["what"], x = "sizes", "sample_size"
        ev["kind"] = "curve"
        ev["grid"] = fls(g) if g else []
        if df is not None:
            ev["res"] = {"x": fls(df[x]), "p": fls(df["power"])}
    if r is not None:
        ev["res"] = {"power": fl(r.power), "mde": fl(r.mde), "n": fl(r.required_n), "effect": fl(r.effect_size), "alpha": fl(r.alpha), "alt": r.alternative, "nt": fl(r.n_treated),
                     "nc": fl(r.n_control), "design": r.design, "sigma": fl(r.sigma), "rho": fl(r.rho)}
    ev["raised"], ev["msg"] = q.raised, q.raised + ": " + q.msg[:80]
    return [ev]


class Scripted:
    """an estimator that does what the behaviour says; it is called after the data set has been drawn"""

    def __init__(self, runs, effects, alpha, nanp):
        self.todo = [(o, e) for run, e in zip(runs, effects) for o in run]
        self.seen, self.alpha, self.nanp = [], alpha, nanp

    def fit(self, data, **k):
        i = len(self.seen)
        o, e = self.todo[i]
        if o == "fail":
            self.seen.append({"ok": False, "att": 0.0, "se": 0.0, "p": 0.0, "lo": 0.0, "hi": 0.0})
            raise ValueError("scripted")
        att = e + (i % 3) / 4.0
        lo, hi = (e - 1.0, e + 1.0 + i) if o.endswith("_cover") else (e + 0.25, e + 2.0)
        p = self.alpha / 2 if o.startswith("reject") else (float("nan") if self.nanp else self.alpha)
        self.seen.append({"ok": True, "att": att, "se": 0.25 + i / 8, "p": p, "lo": lo, "hi": hi})

        class R:
            pass
        r = R()
        r.att, r.se, r.p_value, r.conf_int = att, 0.25 + i / 8, p, (lo, hi)
        return r


def recorder(name):
    base = getattr(diff_diff, name)

    def fit(self, *a, **k):
        try:
            r = base.fit(self, *a, **k)
        except Exception:
            self.seen_.append({"ok": False, "att": 0.0, "se": 0.0, "p": 0.0, "lo": 0.0, "hi": 0.0})
            raise
        pre = {"MultiPeriodDiD": "avg_", "CallawaySantAnna": "overall_"}.get(name, "")
        lo, hi = ci(getattr(r, pre + "conf_int"))
        self.seen_.append({"ok": True, "att": fl(getattr(r, pre + "att")), "se": fl(getattr(r, pre + "se")), "p": fl(getattr(r, pre + "p_value")), "lo": lo, "hi": hi})
        return r
    return type(name, (base,), {"fit": fit})


def sim(c):
    effects = [[2.0, 0.0, 1.0][:c["neff"]], [0.5, 2.0, 2.0][:c["neff"]], [1.0, 3.0, 4.0][:c["neff"]]][c["true"]]
    want = {"n_units": 12, "n_periods": 4, "treatment_fraction": 0.5, "treatment_period": 2, "noise_sd": c.get("sigma", 0.75), "unit_fe_sd": 0.5}

    def once():
        draws = []

        def gen(**k):
            e, s = k.pop("treatment_effect"), k.pop("seed")
            draws.append({"effect": fl(e), "seed": int(s), "same": k == want})
            if c["real"]:
                return generate_did_data(treatment_effect=e, seed=int(s), **k)
            return pd.DataFrame({"outcome": [0.0]})
        if c["real"]:
            est = recorder(c["real"])(alpha=c["own"])
            est.seen_ = []
        else:
            est = Scripted(c["runs"], effects, c["alpha"], c["nanp"])
        q = Quiet()
        kw = {"data_generator_kwargs": {"unit_fe_sd": 0.5}}
        r = q(simulate_power, est, n_units=12, n_periods=4, treatment_effect=2.0, treatment_fraction=0.5, treatment_period=2, sigma=c.get("sigma", 0.75), n_simulations=c["nsim"], alpha=c["alpha"],
              effect_sizes=None if effects == [2.0] and c["seed"] % 2 else list(effects), seed=c["seed"], data_generator=gen, progress=False, **kw)
        return q, r, draws, est.seen_ if c["real"] else est.seen
    q, r, draws, seen = once()
    q2, r2, draws2, seen2 = once()
    runs = [seen[i:i + c["nsim"]] for i in range(0, len(seen), c["nsim"])]
    ev = {"kind": "sim", "effects": fls(effects), "trueeff": fl(2.0), "nsim": c["nsim"], "alpha": fl(c["alpha"]), "runs": runs, "draws": draws, "raised": q.raised,
          "msg": q.raised + ": " + q.msg[:80], "warned": any("simulations" in m and "failed" in m for _, m in q.warnings), "res": "null",
          "estimator": c["real"] or "Scripted", "again": q.raised == q2.raised and repr(draws) == repr(draws2) and (r is None or repr(r.to_dict()) == repr(r2.to_dict()))}
    if r is not None:
        ev["res"] = {"power": fl(r.power), "powerse": fl(r.power_se), "lo": fl(r.power_ci[0]), "hi": fl(r.power_ci[1]), "rate": fl(r.rejection_rate), "mean": fl(r.mean_estimate),
                     "sd": fl(r.std_estimate), "meanse": fl(r.mean_se), "coverage": fl(r.coverage), "n": int(r.n_simulations), "trueeff": fl(r.true_effect), "bias": fl(r.bias),
                     "rmse": fl(r.rmse), "effects": fls(r.effect_sizes), "powers": fls(r.powers), "estimator": r.estimator_name,
                     "recs": [{"att": fl(s["estimate"]), "p": fl(s["p_value"]), "rej": bool(s["rejected"])} for s in r.simulation_results]}
    return [ev]
