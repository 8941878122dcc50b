import random
from cs import *

SPEC = "P09_MultiplierBootstrap"
RULE = "Callaway-Sant'Anna bootstraps on panels small enough to enumerate every multiplier assignment; large numbers of draws for the moments; repeated runs for the seed"


def cases(tier, rng):
    for i in range(120 if tier == "quick" else 1200):
        r = random.Random("P09%s/%d" % (rng.random(), i))
        wt = r.choice(["rademacher", "rademacher", "mammen", "webb"])
        nu = r.randint(3, 4) if wt == "webb" else r.randint(4, 7)
        p = rand_panel(r, nu, r.randint(3, 4), miss=r.choice([0, 0, 0.1]), maxlate=r.choice([0, 0, 1]), never=r.randint(1, 2))
        yield {"id": "draw%d" % i, "kind": "draws", "p": p, "cfg": config(r, agg=r.choice(["all", "all", "event_study", "group", None]), bal=r.choice([None, None, None, 0, 1])),
               "wt": wt, "B": r.choice([20, 49, 50, 99]), "seed": r.randint(0, 10 ** 6), "via": r.choice(["init", "init", "set", "alias", "setalias"])}
    for i in range(9 if tier == "quick" else 45):
        r = random.Random("P09m%s/%d" % (rng.random(), i))
        p = rand_panel(r, r.randint(6, 12), r.randint(3, 5), maxlate=0, never=3)
        yield {"id": "mom%d" % i, "kind": "moments", "p": p, "cfg": config(r), "wt": ["rademacher", "mammen", "webb"][i % 3], "B": 4000, "seed": 77 + i, "via": "init"}
    for i in range(6 if tier == "quick" else 40):
        r = random.Random("P09s%s/%d" % (rng.random(), i))
        yield {"id": "rep%d" % i, "kind": "repeat", "p": rand_panel(r, 6, 3, maxlate=0, never=2), "cfg": config(r, a=0), "wt": r.choice(["rademacher", "mammen", "webb"]), "B": 25, "seed": i, "via": "init"}


def boot(c, q, seed):
    kw = {"n_bootstrap": c["B"], "seed": seed}
    cfg, p = c["cfg"], c["p"]
    v = c["via"]
    if v == "init":
        kw["bootstrap_weights"] = c["wt"]
    elif v == "alias":
        kw["bootstrap_weight_type"] = c["wt"]
    import warnings
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        est = CallawaySantAnna(control_group=cfg["control"], anticipation=cfg["a"], estimation_method=cfg["method"], alpha=cfg["alpha"],
                               base_period=cfg["base"], rank_deficient_action="silent", **kw)
        if v == "set":
            est.set_params(bootstrap_weights=c["wt"])
        elif v == "setalias":
            est.set_params(bootstrap_weight_type=c["wt"])
    return q(est.fit, frame(p), outcome="y", unit="id", time="t", first_treat="g", aggregate=cfg.get("agg"), balance_e=cfg.get("bal"))


def record(c):
    q = Quiet()
    r = boot(c, q, c["seed"])
    if r is None:
        return []
    b = r.bootstrap_results
    if c["kind"] == "repeat":
        a2, a3 = boot(c, Quiet(), c["seed"]), boot(c, Quiet(), c["seed"] + 1)
        if not np.isfinite(r.overall_att) or np.ptp(b.bootstrap_distribution) < 1e-12:
            return []
        return [{"kind": "repeat", **{"d%d" % (i + 1): [float(v).hex() for v in x.bootstrap_results.bootstrap_distribution] for i, x in enumerate((r, a2, a3))}}]
    if any(not np.isfinite(d["effect"]) for d in r.group_time_effects.values()):
        return []
    return [{"kind": c["kind"], **base_event(c["p"]), **{k: c["cfg"][k] for k in ("control", "a", "method", "base")}, "bal": c["cfg"].get("bal"),
             "alpha": fl(c["cfg"]["alpha"]), "wtype": c["wt"], "B": c["B"], "bn": int(b.n_bootstrap), "bw": b.weight_type,
             "draws": fls(b.bootstrap_distribution), "warnedlow": any("n_bootstrap" in m and "low" in m for _, m in q.warnings), "res": res(r)}]
