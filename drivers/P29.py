import copy
import dataclasses
import random
import re
from types import SimpleNamespace
import matplotlib
matplotlib.use("Agg")
import matplotlib.pyplot as plt
from matplotlib.collections import LineCollection, PathCollection, PolyCollection
from matplotlib.lines import Line2D
from matplotlib.patches import Rectangle
from matplotlib.text import Annotation
import numpy as np
import pandas as pd
import runs
import vh
import diff_diff as dd
from diff_diff import HonestDiD, PreTrendsPower, PowerAnalysis, simulate_power, visualization as viz
from du import *

SPEC = "P29_Figures"
RULE = ("results of every plottable class, tables and dictionaries (with missing values, unsorted grids, chosen references and periods) drawn in every sequence of three requests on new and shared axes (enumerated by TLC); "
        "every point, bar, band, line and label of the figure read back from the axes; non-trivial when something is drawn")
CASE_TIMEOUT = 110


def nontrivial(ev):
    return any(c["raised"] == "" for c in ev["calls"])


def cost(c):
    return 3


def design(tier):
    return [("Figures", "Figures_design.cfg")]


def generate(tier, work):
    return [vh.generate("Figures", "Figures_gen.cfg", work)]


def cases(tier, rng, scen):
    q = tier == "quick"
    hist = sorted(scen["Figures"], key=str)
    r = random.Random("P29/%s" % rng.random())
    for i in range(420 if q else 7000):
        s = r.choice(hist)
        yield {"id": "f%d" % i, "kinds": s["kinds"], "places": s["places"], "seed": "%d/%d" % (i, r.randrange(10 ** 9))}


# ------------------------------------------------------------ results to draw
POOL = {}


def fitted(name, r):
    k = r.randrange(4)
    if (name, k) not in POOL:
        tr = runs.R[name]
        df = runs.base(tr["kind"], "P29/%s/%d" % (name, k), **({"mincoh": 2} if tr.get("ant") else {}))
        if k == 3: df["y"] = df["y"] * 40
        runs.setup(df)
        keep = []
        tr["f"](df, runs.World(), keep)
        POOL[name, k] = keep
    return copy.deepcopy(POOL[name, k])


def memo(key, f):
    if key not in POOL: POOL[key] = f()
    return copy.deepcopy(POOL[key])


def num(r): return dy(r, -6, 6, 8)


def sds(r): return r.choice([dy(r, 0, 3, 8) + 0.125, dy(r, 0, 3, 8) + 0.125, dy(r, 0, 3, 8) + 0.125, 0.0, float("nan"), float("inf")])


def sizes(v): return [None if v is None else fl(v)]


def pick(r, xs):
    xs = list(xs)
    return r.sample(xs, r.randint(1, len(xs)))


def rows_of(items):
    """items: (period, effect, se, n) -> recorded rows; k orders the periods"""
    order = {p: i for i, p in enumerate(sorted(p for p, *_ in items))}
    return [{"p": str(p), "k": order[p], "e": fl(e), "s": fl(s), "n": int(n)} for p, e, s, n in items]


def es(r):
    src = r.choice(["mp", "cs", "sa", "df", "dict", "mp", "cs"])
    kw = {}
    if src == "mp":
        x = _first(r.choice(["mp", "mp.cov", "mp.cluster"]), r)
        if r.random() < 0.4:
            for e in x.period_effects.values():
                if r.random() < 0.3: e.effect = float("nan")
                elif r.random() < 0.3: e.se = float("nan")
        items = [(p, e.effect, e.se, 1) for p, e in x.period_effects.items()]
        pre, post = list(x.pre_periods), list(x.post_periods)
        args = [x]
    elif src in ("cs", "sa"):
        x = _first(r.choice(["cs.reg", "cs.ipw", "cs.ant"]) if src == "cs" else r.choice(["sa"]), r)
        for e in x.event_study_effects.values():
            if r.random() < 0.1: e["effect"] = float("nan")
            elif r.random() < 0.1: e["se"] = float("nan")
        items = [(p, e["effect"], e["se"], e.get("n_groups", 1)) for p, e in x.event_study_effects.items()]
        pre, post = [], []
        args = [x]
    else:
        lab = r.choice([lambda i: i - 3, lambda i: i + 2001, lambda i: "q%d" % i, lambda i: (i - 2) * 0.5])
        n = r.randint(1, 7)
        items = [(lab(i), r.choice([num(r), num(r), num(r), float("nan")]), sds(r), 1) for i in range(n)]
        r.shuffle(items)
        pre, post = [], []
        if src == "df": args = [pd.DataFrame([{"period": p, "effect": e, "se": s} for p, e, s, _ in items])]
        else:
            args = []
            ses = {p: s for p, _, s, _ in items}
            if r.random() < 0.3 and n > 1:      # a period with no standard error
                k = r.choice(sorted(ses, key=str))
                del ses[k]
                items = [(p, e, ses.get(p, float("nan")), 1) for p, e, _, _ in items]
            kw.update(effects={p: e for p, e, _, _ in items}, se=ses)
    known = [p for p, *_ in items]
    odd = [99] if not isinstance(known[0], str) else ["zz"]
    if r.random() < 0.4: kw["periods"] = r.sample(known + odd + [p for p in pre if p not in known], r.randint(1, len(known) + 1))
    if r.random() < 0.4: kw["reference_period"] = r.choice(known + known + odd)
    if r.random() < 0.4: kw["pre_periods"] = pick(r, known + odd)
    if r.random() < 0.2 and (src != "mp" or "periods" in kw): kw["post_periods"] = pick(r, known)
    kw["alpha"] = r.choice([0.05, 0.05, 0.1, 0.01, 0.32])
    for f in ("show_zero_line", "show_reference_line", "shade_pre"):
        if r.random() < 0.2: kw[f] = False
    vis = [p for p, e, *_ in items if not np.isnan(e)]
    first = kw["periods"] if "periods" in kw else post if src == "mp" else known
    if not [p for p in first if p in vis]: return es(r)
    inp = {"src": src, "rows": rows_of(items), "periods": [str(p) for p in kw["periods"]] if "periods" in kw else [], "has_periods": "periods" in kw, "ref": str(kw["reference_period"]) if "reference_period" in kw else "null",
           "pre": [str(p) for p in kw.get("pre_periods", pre)], "has_pre": "pre_periods" in kw, "post": [str(p) for p in post], "alpha": kw["alpha"], "zero": kw.get("show_zero_line", True), "refline": kw.get("show_reference_line", True),
           "shade": kw.get("shade_pre", True)}
    for d in inp["rows"]: d["neg"] = src in ("cs", "sa") and d["p"].startswith("-")
    return viz.plot_event_study, args, kw, inp


def group(r):
    x = _first(r.choice(["cs.reg", "cs.ipw", "cs.ant", "cs.reg.nyt"]), r)
    for e in x.group_time_effects.values():
        if r.random() < 0.1: e["se"] = float("nan")
        elif r.random() < 0.05: e["effect"] = float("nan")
    kw = {"alpha": r.choice([0.05, 0.1, 0.01])}
    gs = sorted({g for g, _ in x.group_time_effects})
    if r.random() < 0.4: kw["groups"] = pick(r, gs + [77])
    return viz.plot_group_effects, [x], kw, {"cells": [{"g": int(g), "t": fl(t), "e": fl(e["effect"]), "s": fl(e["se"])} for (g, t), e in x.group_time_effects.items()], "groups": [int(g) for g in kw.get("groups", gs)], "alpha": kw["alpha"]}


def sens(r):
    name, m = r.choice([("mp.cluster", "relative_magnitude"), ("cs.ipw", "relative_magnitude"), ("mp.cov", "smoothness")])
    grid = r.choice([[0, 0.5, 1], [0.0, 0.25, 1.5, 2.0], [1.0], [2.0, 0.5, 1.0], None])
    kw = {} if grid is None else {"M_grid": list(grid)}
    x = memo(("sens", name, m, str(grid), r.randrange(3)), lambda: HonestDiD(method=m).sensitivity_analysis(_first(name, r), **kw))
    if r.random() < 0.3: x = dataclasses.replace(x, breakdown_M=r.choice([None, 0.75, 1.25]))
    kw = {}
    for f in ("show_bounds", "show_ci", "breakdown_line"):
        if r.random() < 0.25: kw[f] = False
    f, args = viz.plot_sensitivity, [x]
    z = r.random()
    if z < 0.25: f, kw["_own"] = type(x).plot, True
    elif z < 0.5:
        res, alpha = _first(name, r), r.choice([0.05, 0.1])
        g = [0, 0.5, 1] if grid is None else list(grid)
        x = HonestDiD(method=m, alpha=alpha).sensitivity_analysis(res, M_grid=list(g))
        f, args = dd.sensitivity_plot, [res]
        kw.update(method=m, M_grid=g, _own=True, **({} if alpha == 0.05 else {"alpha": alpha}))
    return f, args, kw, {"M": fls(x.M_values), "bounds": [[fl(a), fl(b)] for a, b in x.bounds], "cis": [[fl(a), fl(b)] for a, b in x.robust_cis], "orig": fl(x.original_estimate), "breakdown": [] if x.breakdown_M is None else [fl(x.breakdown_M)],
                                           "show": [kw.get(f, True) for f in ("show_bounds", "show_ci", "breakdown_line")]}


def _first(name, r):
    x = fitted(name, r)
    return x[0] if isinstance(x, list) else x


def honest(r):
    base = _first(r.choice(["mp.cluster", "mp", "cs.reg", "cs.ipw"]), r)
    x = HonestDiD(method="relative_magnitude", M=r.choice([0.0, 0.5, 1.0, 2.0]), alpha=r.choice([0.05, 0.1])).fit(base)
    o = x.original_results
    pe = [(p, e.effect, e.se) for p, e in o.period_effects.items()] if hasattr(o, "period_effects") else [(p, o.event_study_effects[p]["effect"], o.event_study_effects[p]["se"]) for p in sorted(o.event_study_effects)]
    per = {p: (fl(x.ci_lb), fl(x.ci_ub)) for p, *_ in pe}
    if r.random() < 0.4:
        per = {p: (fl(e) - abs(num(r)) if r.random() < 0.8 else fl(e) + 0.5, fl(e) + abs(num(r)) + 1) for p, e, _ in pe}
        x = dataclasses.replace(x, event_study_bounds={p: {"ci_lb": a, "ci_ub": b} for p, (a, b) in per.items()})
    kw = {}
    ps = [p for p, *_ in pe]
    if r.random() < 0.4: kw["periods"] = pick(r, ps)
    if r.random() < 0.4: kw["reference_period"] = r.choice(ps)
    want = kw.get("periods", ps)
    d = {p: (e, s) for p, e, s in pe}
    return viz.plot_honest_event_study, [x], kw, {"rows": [{"p": str(p), "e": fl(d[p][0]), "s": fl(d[p][1]), "lo": per[p][0], "hi": per[p][1]} for p in want], "ref": str(kw["reference_period"]) if "reference_period" in kw else "null", "alpha": fl(x.alpha), "M": fl(x.M)}


TYPES = ("treated_vs_never", "earlier_vs_later", "later_vs_earlier")


def bacon(r, kind):
    x = _first(r.choice([n for n in runs.names() if n.startswith("bacon")]), r)
    if r.random() < 0.4:
        t = r.choice(TYPES)
        x.comparisons = [c for c in x.comparisons if c.comparison_type != t]
        setattr(x, "total_weight_" + t, 0.0)
        setattr(x, "weighted_avg_" + t, None)
    elif r.random() < 0.3:
        for t, w in zip(TYPES, r.choice([(0.995, 0.005, 0.0), (0.25, 0.5, 0.25), (0.011, 0.009, 0.98)])): setattr(x, "total_weight_" + t, w)
    kw = {"plot_type": kind} if kind == "bar" or r.random() < 0.5 else {}
    for f in ("show_weighted_avg", "show_twfe_line"):
        if kind == "scatter" and r.random() < 0.25: kw[f] = False
    opt = lambda v: [] if v is None else [fl(v)]
    return viz.plot_bacon, [x], kw, {"comps": [{"t": c.comparison_type, "e": fl(c.estimate), "w": fl(c.weight)} for c in x.comparisons], "twfe": fl(x.twfe_estimate),
                                     "types": [{"t": t, "w": fl(getattr(x, "total_weight_" + t)), "a": opt(getattr(x, "weighted_avg_" + t))} for t in TYPES], "avg": kw.get("show_weighted_avg", True), "line": kw.get("show_twfe_line", True)}


def grid(r):
    n = r.randint(1, 6)
    xs = [i * 0.5 + r.choice([0, 0.125]) for i in range(n)]
    o = r.choice(["up", "up", "down", "mixed"])
    if o == "down": xs.reverse()
    if o == "mixed": r.shuffle(xs)
    ps = {x: min(1.0, 0.05 + 0.125 * x) if r.random() < 0.9 else r.randint(0, 8) / 8 for x in xs}
    return xs, [ps[x] for x in xs]


def power(r):
    src = r.choice(["df", "lists", "sample", "sim", "pa", "pas"])
    kw, args, mde, axis = {}, [], None, "effect"
    if src in ("df", "lists", "sample"):
        xs, ps = grid(r)
        if src == "sample": xs = [int(8 * x) + 4 for x in xs]
        if src == "df": args = [pd.DataFrame({"effect_size": xs, "power": ps})]
        elif src == "sample": args, axis = [pd.DataFrame({"sample_size": xs, "power": ps})], "sample"
        else:
            kw.update(effect_sizes=list(xs), powers=list(ps))
            if r.random() < 0.3: kw["plot_type"] = axis = "sample"
    elif src == "sim":
        es_ = r.choice([[0.5, 1.0, 2.0], [2.0, 0.5], [1.5]])
        args = [memo(("sim", str(es_), r.randrange(2)), lambda: simulate_power(dd.DifferenceInDifferences(), n_units=12, n_periods=4, treatment_period=2, treatment_effect=1.0, effect_sizes=es_, sigma=1.0, n_simulations=4, seed=5, progress=False))]
        xs, ps, mde = list(args[0].effect_sizes), list(args[0].powers), float(args[0].true_effect)
    else:
        pa = PowerAnalysis(power=r.choice([0.8, 0.9]))
        t = pa.power_curve(n_treated=20, n_control=25, sigma=2.0, effect_sizes=r.choice([None, [2.0, 1.0, 0.25], [0.5, 1.5]])) if src == "pa" else pa.sample_size_curve(effect_size=1.0, sigma=2.0)
        c = "effect_size" if src == "pa" else "sample_size"
        axis = "effect" if src == "pa" else "sample"
        args, xs, ps = [t], [float(v) for v in t[c]], [float(v) for v in t["power"]]
    if r.random() < 0.5: mde = kw["mde"] = r.choice([r.choice(xs), round(min(xs) + r.random() * (max(xs) - min(xs)), 3), max(xs) + 1.0])
    if r.random() < 0.4: kw["target_power"] = r.choice([0.9, 0.75, 0.5])
    for f in ("show_mde_line", "show_target_line"):
        if r.random() < 0.2: kw[f] = False
    return viz.plot_power_curve, args, kw, curve(xs, ps, mde, kw.get("target_power", 0.8), kw.get("show_mde_line", True), kw.get("show_target_line", True), "MDE", "Effect Size" if axis == "effect" else "Sample Size", "Power Curve" if axis == "effect" else "Power vs Sample Size")


def curve(xs, ps, v, target, vline, tline, name, xl, title):
    return {"marked": True, "xs": fls(xs), "ps": fls(ps), "v": [] if v is None or not np.isfinite(v) else [fl(v)], "target": fl(target), "vline": vline, "tline": tline, "name": name, "xl": xl, "title": title}


def pre(r):
    src = r.choice(["curve", "one", "df", "lists"])
    kw, args, mdv, xs, ps = {}, [], None, [], []
    if src in ("df", "lists"):
        xs, ps = grid(r)
        if src == "df": args = [pd.DataFrame({"M": xs, "power": ps})]
        else: kw.update(M_values=list(xs), powers=list(ps))
    else:
        v = r.choice(["linear", "constant", "last_period"])
        p = PreTrendsPower(violation_type=v)
        base = _first("cs.ipw", r)
        if src == "curve":
            g = r.choice([None, [0.0, 1.0, 0.5], [0.0, 0.5, 2.0, 8.0]])
            args = [p.power_curve(base, M_grid=g) if g else p.power_curve(base, n_points=5)]
            xs, ps = list(args[0].M_values), list(args[0].powers)
            if r.random() < 0.5:
                x = args[0]
                if r.random() < 0.3: x = dataclasses.replace(x, mdv=r.choice([float("inf"), 1.25]), target_power=r.choice([0.9, 0.5]))
                show = {f: False for f in ("show_mdv", "show_target") if r.random() < 0.25}
                return type(x).plot, [x], {**show, "_own": True}, {**curve(xs, ps, float(x.mdv), float(x.target_power), show.get("show_mdv", True), show.get("show_target", True), "MDV", "", ""), "marked": False}
        else: args = [p.fit(base)]
        mdv = float(args[0].mdv)
    if r.random() < 0.4: mdv = kw["mdv"] = r.choice([0.3, 0.8, 30.0, float("inf")])
    if r.random() < 0.4: kw["target_power"] = r.choice([0.9, 0.75, 0.5])
    for f in ("show_mdv_line", "show_target_line"):
        if r.random() < 0.2: kw[f] = False
    return viz.plot_pretrends_power, args, kw, curve(xs, ps, mdv, kw.get("target_power", 0.8), kw.get("show_mdv_line", True), kw.get("show_target_line", True), "MDV", "Violation Magnitude (M)", "Pre-Trends Test Power Curve")


def bad(r):
    did = SimpleNamespace(att=1.0, se=0.5)
    opts = [
        (viz.plot_event_study, [], {}), (viz.plot_event_study, [], {"effects": {0: 1.0}}), (viz.plot_event_study, [], {"effects": [1.0], "se": {0: 0.5}}), (viz.plot_event_study, [], {"effects": {0: 1.0}, "se": [0.5]}),
        (viz.plot_event_study, [did], {}), (viz.plot_event_study, [pd.DataFrame({"period": [1], "effect": [1.0]})], {}), (viz.plot_event_study, [pd.DataFrame({"effect": [1], "se": [1.0]})], {}), (viz.plot_event_study, [pd.DataFrame({"period": [1], "se": [1.0]})], {}),
        (viz.plot_event_study, [], {"effects": {0: float("nan")}, "se": {0: 0.5}}), (viz.plot_event_study, [], {"effects": {0: 1.0}, "se": {0: 0.5}, "periods": [7]}), (viz.plot_event_study, [pd.DataFrame({"period": [], "effect": [], "se": []})], {}),
        (viz.plot_event_study, [_first("bacon", r)], {}), (viz.plot_group_effects, [_first("mp", r)], {}), (viz.plot_group_effects, [did], {}),
        (viz.plot_honest_event_study, [dataclasses.replace(HonestDiD(method="relative_magnitude").fit(_first("mp", r)), original_results=None)], {}), (viz.plot_honest_event_study, [SimpleNamespace(original_results=did, alpha=0.05)], {}),
        (viz.plot_bacon, [_first("bacon", r)], {"plot_type": "pie"}), (viz.plot_power_curve, [], {}), (viz.plot_power_curve, [], {"effect_sizes": [1.0]}), (viz.plot_power_curve, [did], {}), (viz.plot_power_curve, [pd.DataFrame({"a": [1]})], {}),
        (viz.plot_power_curve, [PowerAnalysis().mde(n_treated=5, n_control=5, sigma=1.0)], {}), (viz.plot_pretrends_power, [], {}), (viz.plot_pretrends_power, [did], {}), (viz.plot_pretrends_power, [pd.DataFrame({"M": [1]})], {}),
        (viz.plot_pretrends_power, [], {"M_values": [1.0]}),
    ]
    i = r.randrange(len(opts))
    return (*opts[i], {"which": i})


MAKE = {"es": es, "group": group, "sens": sens, "honest": honest, "scatter": lambda r: bacon(r, "scatter"), "bar": lambda r: bacon(r, "bar"), "power": power, "pre": pre, "bad": bad}


# ------------------------------------------------------------ reading a figure
NUMRE = re.compile(r"(?<![A-Za-z\d])-?(?:\d[\d,]*\.?\d*(?:e[-+]?\d+)?)%?|\b(?:nan|inf)\b%?")


def words(s):
    toks = []

    def f(m):
        t = m.group(0)
        d = t.rstrip("%").replace(",", "")
        toks.append({"x": fl(d), "dp": len(d.split(".")[1]) if "." in d else 0, "pct": t.endswith("%")})
        return "@"
    return {"s": " ".join(NUMRE.sub(f, s.replace("β", "beta")).split()), "v": toks}


def kids(ax):
    return [a for a in ax.lines] + list(ax.collections) + list(ax.patches) + list(ax.texts)


def state(a):
    if isinstance(a, Line2D): return ("line", np.asarray(a.get_xydata()).tobytes(), a.get_marker(), a.get_visible())
    if isinstance(a, PathCollection): return ("pts", np.asarray(a.get_offsets()).tobytes())
    if isinstance(a, LineCollection): return ("seg", b"".join(np.asarray(s).tobytes() for s in a.get_segments()))
    if isinstance(a, PolyCollection): return ("poly", b"".join(np.asarray(p.vertices).tobytes() for p in a.get_paths()))
    if isinstance(a, Rectangle): return ("rect", a.get_x(), a.get_y(), a.get_width(), a.get_height())
    return ("text", getattr(a, "get_text", lambda: "")())


def white(c):
    try:
        return bool(np.allclose(matplotlib.colors.to_rgba(c)[:3], 1.0))
    except Exception:
        return False


def read(ax, old):
    art = {"hl": [], "vl": [], "pts": [], "seg": [], "line": [], "span": [], "bar": [], "poly": []}
    caps = {id(l) for c in ax.containers if type(c).__name__ == "ErrorbarContainer" for l in c.lines[1]}
    fin = lambda x, y: np.isfinite(x) and np.isfinite(y)
    lab = lambda a: "" if str(a.get_label()).startswith("_") else words(str(a.get_label()))["s"]
    inbar = {id(p) for c in ax.containers if type(c).__name__ == "BarContainer" for p in c.patches}
    for a in kids(ax):
        if id(a) in old or id(a) in caps or not a.get_visible(): continue
        if isinstance(a, Line2D):
            dx, dyy = a.get_transform().contains_branch_seperately(ax.transData)
            xy = np.asarray(a.get_xydata(), dtype=float)
            if not dx and dyy: art["hl"].append(fl(xy[0][1]))
            elif dx and not dyy: art["vl"].append(fl(xy[0][0]))
            else:
                if a.get_marker() not in (None, "None", "", " "): art["pts"] += [{"x": fl(x), "y": fl(y), "hollow": white(a.get_markerfacecolor()), "lab": lab(a)} for x, y in xy if fin(x, y)]
                if a.get_linestyle() not in ("None", "", " ") and len(xy) > 1: art["line"].append({"xy": [[fl(x), fl(y)] for x, y in xy], "lab": lab(a)})
        elif isinstance(a, PathCollection): art["pts"] += [{"x": fl(x), "y": fl(y), "hollow": False, "lab": lab(a)} for x, y in np.asarray(a.get_offsets(), dtype=float) if fin(x, y)]
        elif isinstance(a, LineCollection): art["seg"] += [{"x": fl(s[0][0]), "lo": fl(min(s[0][1], s[-1][1])), "hi": fl(max(s[0][1], s[-1][1]))} for s in (np.asarray(g, dtype=float) for g in a.get_segments()) if len(s) and np.isfinite(s).all()]
        elif isinstance(a, PolyCollection): art["poly"].append([[fl(x), fl(y)] for p in a.get_paths() for x, y in p.vertices if fin(x, y)])
        elif isinstance(a, Rectangle):
            if id(a) in inbar: art["bar"].append({"x": fl(a.get_x() + a.get_width() / 2), "h": fl(a.get_y() + a.get_height())})
            else: art["span"].append([fl(a.get_x()), fl(a.get_x() + a.get_width())])
    art["text"] = [words(t.get_text()) for t in ax.texts if id(t) not in old]
    art["legend"] = [words(t.get_text()) for t in ax.get_legend().get_texts()] if ax.get_legend() else []
    art["ticks"] = [{"x": fl(x), "l": l.get_text()} for x, l in zip(ax.get_xticks(), ax.get_xticklabels())]
    art["labels"] = [ax.get_title(), ax.get_xlabel(), ax.get_ylabel()]
    return art


def frozen(x):
    if isinstance(x, pd.DataFrame): return x.to_csv()
    if isinstance(x, dict): return repr([(k, frozen(v)) for k, v in x.items()])
    if isinstance(x, (list, tuple)): return repr([frozen(v) for v in x])
    if isinstance(x, np.ndarray): return repr(x.tolist())
    if dataclasses.is_dataclass(x): return repr([(f.name, frozen(getattr(x, f.name, None))) for f in dataclasses.fields(x)])
    return repr(x)


def record(c):
    r = random.Random("P29r" + c["seed"])
    plt.close("all")
    axes, calls = [], []
    shown = []
    real_show = plt.show
    plt.show = lambda *a, **k: shown.append(1)
    try:
        for k, place in zip(c["kinds"], c["places"]):
            f, args, kw, inp = MAKE[k](r)
            own = kw.pop("_own", False)      # drawn by the result itself: no title, no show
            custom = r.random() < 0.3 and k != "bad" and not own
            if custom: kw.update(title="Some title", ylabel="Y of it")
            show = r.random() < 0.3
            show = show and not own
            if not own: kw["show"] = show
            if place: kw["ax"] = axes[place - 1]
            before = {j: [(id(a), state(a)) for a in kids(ax)] for j, ax in enumerate(axes)}
            was = frozen([args, {a: b for a, b in kw.items() if a != "ax"}])
            shown.clear()
            q = Quiet()
            ax = q(f, *args, **kw)
            same = was == frozen([args, {a: b for a, b in kw.items() if a != "ax"}])
            kept = all(set(b) <= {(id(a), state(a)) for a in kids(axes[j])} for j, b in before.items())
            extra = [j + 1 for j, b in before.items() if len(kids(axes[j])) > len(b)]
            ret = 0
            if ax is not None:
                hit = [j for j, a in enumerate(axes) if a is ax]
                if hit: ret = hit[0] + 1
                else:
                    axes.append(ax)
                    ret = len(axes)
            elif not place and k != "bad": axes.append(plt.subplots()[1])
            old = {i for b in before.values() for i, _ in b}
            art = read(ax, old) if ax is not None else {"hl": [], "vl": [], "pts": [], "seg": [], "line": [], "span": [], "bar": [], "poly": [], "text": [], "legend": [], "ticks": [], "labels": ["", "", ""]}
            calls.append({"kind": k, "place": int(place), "raised": q.raised, "ret": ret, "kept": kept, "extra": extra, "shows": len(shown), "show": show, "same": same, "custom": custom, "inp": inp, "art": art})
    finally:
        plt.show = real_show
        plt.close("all")
    return [{"kinds": c["kinds"], "places": c["places"], "calls": calls}]
