import random
import vh
from cs import *
from diff_diff import BaconDecomposition, bacon_decompose, TwoWayFixedEffects

SPEC = "P11_Bacon"
RULE = "Goodman-Bacon decompositions of TLC-enumerated and random staggered panels, exact and approximate weights, through the class, the function and TwoWayFixedEffects.decompose"


def generate(tier, work):
    return [dict(vh.generate("GenPanel", c + ".cfg", work), name=c) for c in ("GenPanel_cs3", "GenPanel_cs4")]


def nontrivial(ev):
    return ev["raised"] == ""


def cases(tier, rng, scen):
    q = tier == "quick"
    sk = scen["GenPanel_cs3"] + scen["GenPanel_cs4"]
    for i, s in enumerate(rng.sample(sk, min(len(sk), 250 if q else 10 ** 6))):
        r = random.Random("P11s%d" % i)
        yield {"id": "skel%d" % i, "p": from_skel(s, r), "exact": r.random() < 0.6, "via": r.choice(["class", "func", "twfe"])}
    for i in range(200 if q else 2000):
        r = random.Random("P11r%s/%d" % (rng.random(), i))
        p = rand_panel(r, r.randint(3, 9), r.randint(2, 6), miss=r.choice([0, 0, 0, 0.15]), gaps=r.random() < 0.3, maxlate=r.randint(0, 2), never=r.choice([0, 1, 2]))
        yield {"id": "rand%d" % i, "p": p, "exact": r.random() < 0.6, "via": r.choice(["class", "func", "twfe"])}


def record(c):
    p = c["p"]
    df = frame(p)
    if c["id"].endswith("7"):
        df["t"] = df["t"].astype(str)          # numeric text is accepted
    w = "exact" if c["exact"] else "approximate"
    q = Quiet()
    cls = lambda: BaconDecomposition(weights=w).fit(df, "y", "id", "t", "g")
    fun = lambda: bacon_decompose(df, "y", "id", "t", "g", weights=w)
    tw = lambda: TwoWayFixedEffects().decompose(df, "y", "id", "t", "g", weights=w)
    r = q({"class": cls, "func": fun, "twfe": tw}[c["via"]])
    ev = base_event(p)
    ev = {k: ev[k] for k in ("periods", "coh", "Y")}
    nper = {}
    for u, t in p["rows"]:
        nper[u] = nper.get(u, 0) + 1
    ev.update(exact=c["exact"], balanced=set(nper.values()) == {len(ev["periods"])}, raised=q.raised, msg=q.raised + ": " + q.msg[:100],
              warned=any("Unbalanced" in m for _, m in q.warnings), same=True, res="null")
    if r is not None:
        def key(x):
            return [(str(k.treated_group), str(k.control_group), k.comparison_type, float(k.estimate).hex(), float(k.weight).hex()) for k in x.comparisons]
        ev["same"] = key(r) == key(Quiet()(cls)) == key(Quiet()(fun)) == key(Quiet()(tw))
        ev["res"] = {"twfe": fl(r.twfe_estimate), "timing": [gint(g) for g in r.timing_groups], "ng": int(r.n_timing_groups), "nnever": int(r.n_never_treated),
                     "nobs": int(r.n_obs), "err": fl(r.decomposition_error),
                     "wt": [fl(v) for v in (r.total_weight_treated_vs_never, r.total_weight_earlier_vs_later, r.total_weight_later_vs_earlier)],
                     "eff": [None if v is None else fl(v) for v in (r.weighted_avg_treated_vs_never, r.weighted_avg_earlier_vs_later, r.weighted_avg_later_vs_earlier)],
                     "comp": [{"k": gint(k.treated_group), "l": 0 if k.control_group == "never_treated" else gint(k.control_group), "type": k.comparison_type,
                               "est": fl(k.estimate), "w": fl(k.weight), "nk": int(k.n_treated), "nl": int(k.n_control), "from": gint(k.time_window[0]), "to": gint(k.time_window[1])}
                              for k in r.comparisons]}
    return [ev]
