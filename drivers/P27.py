import contextlib
import io
import math
import random
import re
import numpy as np
import pandas as pd
import runs
import vh
import diff_diff as dd
from diff_diff import HonestDiD, PreTrendsPower, PowerAnalysis, simulate_power, utils
from du import *

SPEC = "P27_Reporting"
RULE = ("results of every class (all analyses, sensitivity and power curves, simulated and analytical power, wild bootstrap, Bacon) at outcome scales 1e-4..1e6 and many levels, read through summary, dictionary, "
        "table and repr in every order up to length 3 (enumerated by TLC); every number shown is compared with the result; non-trivial when there is a result")
CASE_TIMEOUT = 110

KIND = {"did": "did", "twfe": "did", "mp": "mp", "cs": "cs", "sa": "sa", "bacon": "bacon", "td": "td", "sdid": "sdid", "trop": "trop", "honest": "honest", "pretrends": "pretrends", "placebo": "placebo"}
MORE = ["sens", "curve", "power", "sim", "wild", "linreg"]


def nontrivial(ev):
    return ev["raised"] == ""


def cost(c):
    return 15 if c["run"].startswith(("trop", "sa.boot")) else 2


def design(tier):
    return [("Reading", "Reading_design.cfg")]


def generate(tier, work):
    return [vh.generate("Reading", "Reading_gen.cfg", work)]


def opts(name, r):
    tr = runs.R[name]
    k = dict(nu=r.choice([16, 18])) if tr.get("big") else dict(nu=5, T=4) if tr.get("small") else {}
    if tr.get("xfix"): k.update(xvar=False, nu=r.choice([12, 14]))
    if tr.get("ant"): k["mincoh"] = 2
    if tr.get("gapsok") and r.random() < 0.3: k["gaps"] = r.randint(1, 3)
    return k


def cases(tier, rng, scen):
    q = tier == "quick"
    views = sorted((s["views"] for s in scen["Reading"]), key=str)
    for n in ("did", "mp", "cs.reg", "sa", "sdid.placebo", "td.reg", "trop.dim"):
        yield {"id": "summary-level.%s" % n, "run": n, "views": ["summary"], "alpha": 0.05, "scale": 1.0, "names": False, "other": 0.2, "seed": "fixed", "o": opts(n, random.Random(1))}
    for n in list(runs.names()) + MORE:
        if n.split(".")[0] not in KIND and n not in MORE: continue
        r = random.Random("P27/%s/%s" % (n, rng.random()))
        slow = n.startswith(("trop", "sa.boot"))
        k = (4 if slow else 12) if q else (30 if slow else 250)
        for i in range(k):
            yield {"id": "%s.%d" % (n, i), "run": n, "views": r.choice(views), "alpha": r.choice([0.05, 0.1, 0.01, 0.07, 0.2, 0.32, 0.001, 0.025, 0.003, 0.5, 0.06, 0.12, 0.14, 0.29]), "scale": r.choice([1.0, 1.0, 1.0, 1e-4, 0.01, 30.0, 1e6, -2.0]),
                   "names": r.random() < 0.4, "other": 0, "seed": "%s/%d/%d" % (n, i, r.randrange(10 ** 9)), "o": opts(n, r) if n in runs.R else {}}


# ------------------------------------------------------------ typed values
def tv(v):
    if hasattr(v, "item") and not isinstance(v, (np.ndarray, pd.Series)): v = v.item()
    if v is None: return {"t": "0", "v": 0.0, "s": ""}
    if isinstance(v, bool): return {"t": "b", "v": 0.0, "s": str(v)}
    if isinstance(v, (int, float)): return {"t": "n", "v": float(v), "s": ""}
    return {"t": "s", "v": 0.0, "s": str(v)}


def kv(k, v):
    return dict(tv(v), k=k)


def said(kind, r):
    """numbers the sentences of a summary quote that are not attributes of their own"""
    out = {"cells": [], "weights": [], "left_out": []}
    if kind == "td":
        out["cells"] = [{"tpl": template("%s 1.5" % k)["tpl"], "v": fl(v)} for d in (r.group_means, r.pscore_stats) for k, v in (d or {}).items()]
    if kind == "sdid": out["weights"] = [{"unit": str(u), "w": fl(w)} for u, w in r.unit_weights.items()]
    if kind == "placebo": out["left_out"] = fls(list((r.leave_one_out_effects or {}).values()))
    return out


SCALARS = (int, float, str, bool, type(None), np.generic)


def attrs(r):
    out = {}
    for n in dir(r):
        if n.startswith("_"): continue
        try:
            v = getattr(r, n)
        except Exception:
            continue
        if callable(v) and not isinstance(v, SCALARS): continue
        if isinstance(v, SCALARS): out[n] = v
    for n in ("conf_int", "overall_conf_int", "avg_conf_int", "power_ci"):
        if hasattr(r, n):
            c = ci(getattr(r, n))
            p = {"conf_int": "conf_int", "overall_conf_int": "conf_int", "avg_conf_int": "avg_conf_int", "power_ci": "power_ci"}[n]
            out[p + "_lower"], out[p + "_upper"] = c
    for n, k in (("pre_periods", "n_pre_periods"), ("post_periods", "n_post_periods"), ("groups", "n_groups"), ("time_periods", "n_periods"), ("comparisons", "n_comparisons"), ("M_values", "n_M"), ("leave_one_out_effects", "n_left_out"),
                 ("event_study_effects", "n_rel_periods")):
        if getattr(r, n, None) is not None and k not in out: out[k] = len(getattr(r, n))
    if hasattr(r, "n_treated") and hasattr(r, "n_control"): out["n_total"] = r.n_treated + r.n_control
    for p, e in (getattr(r, "period_effects", None) or {}).items():
        out["effect_period_%s" % p], out["se_period_%s" % p], out["pval_period_%s" % p] = e.effect, e.se, e.p_value
    return out


def est(level, name, keys, x, fields, stars=None):
    get = (lambda f: x.get(f, float("nan"))) if isinstance(x, dict) else (lambda f: getattr(x, f))
    lo, hi = ci(get(fields[4])) if fields[4] else (float("nan"),) * 2
    return {"level": level, "name": str(name), "keys": [kv(k, v) for k, v in keys.items()], "eff": fl(get(fields[0])), "se": fl(get(fields[1])) if fields[1] else 0.0, "t": fl(get(fields[2])) if fields[2] else 0.0,
            "p": fl(get(fields[3])) if fields[3] else 0.0, "lo": lo, "hi": hi, "full": fields[2] is not None}


EFF = ("effect", "se", "t_stat", "p_value", "conf_int")
OV = ("overall_att", "overall_se", "overall_t_stat", "overall_p_value", "overall_conf_int")


def ests(kind, r):
    if kind in ("did", "td", "sdid", "trop"): return [est("main", "ATT", {}, r, ("att", "se", "t_stat", "p_value", "conf_int"))]
    if kind == "mp":
        return [est("rows", p, {"period": p}, e, EFF) for p, e in r.period_effects.items()] + [est("main", "Avg ATT", {}, r, ("avg_att", "avg_se", "avg_t_stat", "avg_p_value", "avg_conf_int"))]
    if kind in ("cs", "sa"):
        out = [est("main", "ATT", {}, r, OV)]
        out += [est("event_study", e, {"relative_period": e}, r.event_study_effects[e], EFF) for e in sorted(r.event_study_effects or {})]
        if kind == "cs":
            out += [est("group", g, {"group": g}, r.group_effects[g], EFF) for g in sorted(r.group_effects or {})]
            out += [est("group_time", "", {"group": g, "time": t}, e, EFF) for (g, t), e in r.group_time_effects.items()]
        else:
            out += [dict(est("cohort", "", {"cohort": g, "relative_period": t}, e, ("effect", "se", None, None, None))) for (g, t), e in (r.cohort_effects or {}).items()]
        return out
    return []


# ------------------------------------------------------------ reading text
NUM = r"[-+]?(?:\d[\d,]*\.?\d*(?:e[-+]?\d+)?|nan|inf)"


def tok(s):
    m = re.fullmatch("(%s)(%%?)" % NUM, s.strip())
    if not m: return {"x": 0.0, "dp": -1, "pct": False, "s": s.strip()}
    d = m.group(1)
    return {"x": float(d.replace(",", "")), "dp": len(d.split(".")[1]) if "." in d else 0, "pct": m.group(2) == "%", "s": s.strip()}


FREE = r"(?:(?<![A-Za-z\d.])[-+]?\d[\d,]*(?:\.\d+)?(?:e[-+]?\d+)?%?|(?<![A-Za-z])[-+]?(?:nan|inf)%?(?![A-Za-z]))"


def template(s):
    """a sentence with its numbers taken out"""
    s = " ".join("".join(ch for ch in s if ord(ch) < 128).split())
    return {"tpl": re.sub(FREE, "@", s), "toks": [tok(t) for t in re.findall(FREE, s)]}


def parse(text):
    labels, rows, cis, plain = [], [], [], []
    for ln in text.split("\n"):
        s = ln.strip()
        if not s or set(s) <= set("=-"): continue
        m = re.match(r"^(?:CI \()?(%s)%%\)?.*?:\s+\[(%s), (%s)\]$" % (NUM, NUM, NUM), s)
        if m:
            cis.append({"level": tok(m.group(1)), "lo": tok(m.group(2)), "hi": tok(m.group(3))})
            continue
        m = re.match(r"^(.*?):\s+\[(%s), (%s)\]$" % (NUM, NUM), s)
        if m:
            labels.append({"l": m.group(1), "toks": [tok(m.group(2)), tok(m.group(3))]})
            continue
        m = re.match(r"^(\S.*?)((?:\s+%s){3,})\s*(\*{1,3}|\.)?$" % NUM, s)
        if m:
            rows.append({"name": m.group(1).strip(), "toks": [tok(t) for t in m.group(2).split()], "stars": m.group(3) or ""})
            continue
        m = re.match(r"^(.*?):\s+(\S.*)$", s)
        if m:
            labels.append({"l": m.group(1), "toks": [tok(m.group(2))]})
            continue
        plain.append(s)
    return {"labels": labels, "rows": rows, "cis": cis, "plain": plain, "texts": [template(p) for p in plain + [x.strip() for x in text.split("\n") if x.strip().startswith("WARNING:")]]}


def frame(level, df):
    return {"level": level, "cols": [str(c) for c in df.columns], "rows": [[kv(str(c), row[c]) for c in df.columns] for row in df.to_dict("records")]}


def frames(kind, r):
    if kind == "cs":
        out = [frame("group_time", r.to_dataframe(level="group_time"))]
        if r.event_study_effects is not None: out.append(frame("event_study", r.to_dataframe(level="event_study")))
        if r.group_effects is not None: out.append(frame("group", r.to_dataframe(level="group")))
        return out
    if kind == "sa": return [frame("event_study", r.to_dataframe())] + ([frame("cohort", r.to_dataframe(level="cohort"))] if r.cohort_effects else [])
    if kind == "mp": return [frame("rows", r.to_dataframe())]
    if hasattr(r, "to_dataframe"): return [frame("one" if kind not in ("bacon", "sens", "curve") else kind, r.to_dataframe())]
    return []


def lists(kind, r):
    """other tables: (name, expected from the attributes, table)"""
    out = []
    if kind == "sdid":
        out.append({"name": "unit_weights", "sorted": True, "want": [[kv("unit", u), kv("weight", w)] for u, w in r.unit_weights.items()], "got": frame("", r.get_unit_weights_df())["rows"]})
        out.append({"name": "time_weights", "sorted": False, "want": [[kv("period", u), kv("weight", w)] for u, w in r.time_weights.items()], "got": frame("", r.get_time_weights_df())["rows"]})
    if kind == "trop":
        out.append({"name": "effects", "sorted": False, "want": [[kv("unit", u), kv("time", t), kv("effect", w)] for (u, t), w in r.treatment_effects.items()], "got": frame("", r.get_treatment_effects_df())["rows"]})
        out.append({"name": "unit_effects", "sorted": False, "want": [[kv("unit", u), kv("effect", w)] for u, w in r.unit_effects.items()], "got": frame("", r.get_unit_effects_df())["rows"]})
        out.append({"name": "time_effects", "sorted": False, "want": [[kv("time", u), kv("effect", w)] for u, w in r.time_effects.items()], "got": frame("", r.get_time_effects_df())["rows"]})
    if kind == "bacon":
        w, e = r.weight_by_type(), r.effect_by_type()
        out.append({"name": "weight_by_type", "sorted": False, "want": [[kv("k", k), kv("v", getattr(r, "total_weight_" + k))] for k in ("treated_vs_never", "earlier_vs_later", "later_vs_earlier")], "got": [[kv("k", k), kv("v", v)] for k, v in w.items()]})
        out.append({"name": "effect_by_type", "sorted": False, "want": [[kv("k", k), kv("v", getattr(r, "weighted_avg_" + k))] for k in ("treated_vs_never", "earlier_vs_later", "later_vs_earlier")], "got": [[kv("k", k), kv("v", v)] for k, v in e.items()]})
        out.append({"name": "comparisons", "sorted": False, "want": [[kv(f, getattr(c, f)) for f in ("treated_group", "control_group", "comparison_type", "estimate", "weight", "n_treated", "n_control")] + [kv("time_start", c.time_window[0]), kv("time_end", c.time_window[1])] for c in r.comparisons],
                    "got": frame("", r.to_dataframe())["rows"]})
    if kind == "sens":
        out.append({"name": "sensitivity", "sorted": False, "want": [[kv("M", m), kv("lb", b[0]), kv("ub", b[1]), kv("ci_lb", k[0]), kv("ci_ub", k[1])] for m, b, k in zip(r.M_values, r.bounds, r.robust_cis)], "got": frame("", r.to_dataframe())["rows"]})
    if kind == "curve":
        out.append({"name": "curve", "sorted": False, "want": [[kv("M", m), kv("power", p)] for m, p in zip(r.M_values, r.powers)], "got": frame("", r.to_dataframe())["rows"]})
    if kind == "sim":
        out.append({"name": "power_curve", "sorted": False, "want": [[kv("effect_size", m), kv("power", p)] for m, p in zip(r.effect_sizes, r.powers)], "got": frame("", r.power_curve_df())["rows"]})
    return out


def results(c, r):
    """the results of the case: (kind, object, model or None)"""
    n, a = c["run"], c["alpha"]
    if n in runs.R:
        tr = runs.R[n]
        df = runs.base(tr["kind"], c["seed"], **c["o"])
        df["y"] *= c["scale"]
        runs.setup(df)
        W = runs.World()
        if c["names"] and not n.startswith(("cs", "sa", "bacon", "pretrends")):
            um = {u: "firm %s" % u for u in df.unit.unique()}
            if tr.get("timemap") == "any":
                tm = {t: "Q%d" % t for t in df.time.unique()}
                df["time"] = df["time"].map(tm)
            else: tm = {}
            df["unit"] = df["unit"].map(um)
            W = runs.World(unit=um, time=tm)
        keep = []
        runs.AL.clear()
        runs.AL["alpha"] = a
        try:
            if n.startswith("honest"):
                base = []
                runs.R["mp.cluster" if n == "honest.mp" else "cs.reg"]["f"](df, W, base)
                for m in r.sample(["relative_magnitude", "smoothness", "combined"], 3):
                    keep.append(HonestDiD(method=m, M=r.choice([0.0, 0.25, 1.0, round(r.random() * c["scale"], 4)]), **runs.AL).fit(base[0]))
            else: tr["f"](df, W, keep)
        finally:
            runs.AL.clear()
        kind = KIND[n.split(".")[0]]
        return [(kind, x) for x in keep[:3]]
    if n in ("sens", "curve"):
        df = runs.base("stag" if n == "curve" else "two", c["seed"])
        df["y"] *= c["scale"]
        runs.setup(df)
        keep = []
        runs.R["cs.reg" if n == "curve" else "mp.cluster"]["f"](df, runs.World(), keep)
        if n == "sens": return [(n, HonestDiD(method="relative_magnitude", alpha=a).sensitivity_analysis(keep[0], M_grid=sorted({round(r.random() * 2, 3) for _ in range(r.randint(1, 5))})))]
        return [(n, PreTrendsPower(alpha=a).power_curve(keep[0], n_points=r.randint(2, 6)))]
    if n == "power": return [(n, PowerAnalysis(alpha=a).power(effect_size=r.choice([0.3, 1.0, 25.0]), n_treated=r.randint(3, 90), n_control=r.randint(3, 90), sigma=r.choice([0.5, 1.0, 12.0]), n_pre=r.choice([1, 3]), n_post=r.choice([1, 2]), rho=r.choice([0.0, 0.3])))]
    if n == "sim": return [(n, simulate_power(dd.DifferenceInDifferences(), n_units=12, n_periods=4, treatment_period=2, effect_sizes=[0.5, 2.0], sigma=1.0, n_simulations=r.randint(3, 6), alpha=a, seed=r.randint(0, 99), progress=False))]
    X = np.column_stack([np.ones(24), [i % 2 for i in range(24)], [dy(r) for _ in range(24)]])
    y = c["scale"] * (X @ np.array([1.0, 2.0, 0.5]) + np.array([dy(r, -2, 2, 8) for _ in range(24)]))
    if n == "wild":
        b = np.linalg.lstsq(X, y, rcond=None)[0]
        return [(n, utils.wild_bootstrap_se(X, y, y - X @ b, np.arange(24) // 3, 1, n_bootstrap=19, alpha=a, seed=3))]
    from diff_diff.linalg import LinearRegression
    return [(n, LinearRegression(include_intercept=False, alpha=a).fit(X, y).get_inference(1))]


def show(r, view):
    if view == "summary": return r.summary() if hasattr(r, "summary") else ""
    if view == "print":
        if not hasattr(r, "print_summary"): return r.summary() if hasattr(r, "summary") else ""
        b = io.StringIO()
        with contextlib.redirect_stdout(b): r.print_summary()
        return b.getvalue().rstrip("\n")
    if view == "repr": return repr(r)
    if view == "dict": return str(r.to_dict()) if hasattr(r, "to_dict") else ""
    return r.to_dataframe().to_csv() if hasattr(r, "to_dataframe") else ""


def record(c):
    r = random.Random("P27r" + c["seed"])
    q = Quiet()
    rs = q(results, c, r)
    if q.raised: return [{"run": c["run"], "kind": "none", "raised": q.raised}]
    out = []
    for kind, x in rs:
        a0 = attrs(x)
        first = {v: show(x, v) for v in ("summary", "print", "dict", "frame", "repr")}
        again = [[v, show(x, v) == first[v]] for v in c["views"]]
        a = attrs(x)
        text = x.summary(alpha=c["other"]) if c["other"] else first["summary"]
        d = x.to_dict() if hasattr(x, "to_dict") else {}
        if kind == "linreg": d = {**{k: v for k, v in d.items() if k != "conf_int"}, "conf_int_lower": d["conf_int"][0], "conf_int_upper": d["conf_int"][1]}
        rp = [{"k": k, "tok": tok(v.rstrip("*.") if not re.fullmatch(NUM, v) else v), "stars": re.search(r"[*.]*$", v).group(0) if not re.fullmatch(NUM, v) else ""} for k, v in re.findall(r"([\w]+)=(%s[*.]*%%?|[^,()\[\]]+)" % NUM, first["repr"])] if kind != "linreg" else []
        out.append({"run": c["run"], "kind": kind, "raised": "", "other": bool(c["other"]), "alpha": fl(getattr(x, "alpha", c["alpha"])), "asked": c["alpha"], "attrs": [kv(k, v) for k, v in a.items()], "changed": a != a0 and str(a) != str(a0),
                    "again": [v for v, ok in again if not ok], "print_is_summary": first["print"] == first["summary"], "ests": ests(kind, x), "summary": parse(text), "dict": [kv(k, v) for k, v in d.items()],
                    "frames": frames(kind, x), "lists": lists(kind, x), "repr": rp, "said": said(kind, x)})
    return out
