import random
import numpy as np
import pandas as pd
from diff_diff import diagnostics as dg
import vh
from du import *

SPEC = "P18_Placebo"
RULE = ("placebo timing, group, permutation and leave-one-out tests on random panels (balanced or not, labelled in several ways), called directly and through the "
        "dispatcher and the battery; non-trivial when a result was returned")


def nontrivial(ev):
    return ev.get("raised") == "" and ev["kind"] != "args"


def cost(c):
    return 6 if c["kind"] in ("perm", "all") else 1


def cases(tier, rng, scen=None):
    q = tier == "quick"
    for i in range(260 if q else 3000):
        r = random.Random("P18/%d/%s" % (i, rng.random()))
        kind = r.choice(["timing", "group", "perm", "perm", "loo", "all"])
        nu, npd = r.randint(4, 7), r.randint(2, 5)
        cut = r.randint(1, npd - 1)
        k = r.randint(1, nu - 1)
        if kind == "loo" and r.random() < 0.7:
            k = max(2, k)
        tu = r.sample(range(nu), k)
        cells = [(u, t) for u in range(nu) for t in range(npd)]
        z = r.random()
        if z < 0.3:
            cells = [x for x in cells if r.random() < 0.8]
        elif z < 0.4:                     # no treated cell after (or before) the change, or one unit never seen on one side
            side = r.random() < 0.5
            who = r.choice([tu, [r.randrange(nu)]])
            cells = [x for x in cells if not (x[0] in who and (x[1] >= cut) == side)]
        if r.random() < 0.4:
            r.shuffle(cells)
        if len(cells) < 5:
            continue
        yield {"id": "c%d" % i, "kind": kind, "cells": cells, "tu": tu, "cut": cut, "np": npd, "y": [dy(r) for _ in cells], "alpha": r.choice([0.05, 0.1, 0.01, 0.2]),
               # a treatment that is switched on for some periods and off again
               "on": sorted(r.sample(range(npd), r.randint(1, npd - 1))) if npd > 2 and r.random() < 0.45 else None,
               "fake": r.randrange(npd), "posts": r.random() < 0.6, "fakeunits": r.sample(range(nu), r.randint(0 if r.random() < 0.2 else 1, nu - 1)),
               "b": r.choice([1, 5, 20, 60, 150]) if q else r.choice([1, 20, 150, 400]), "seed": r.randint(0, 999), "robust": r.random() < 0.7,
               "cluster": r.random() < 0.3, "names": r.choice([("y", "d", "t", "u"), ("out", "treated", "post", "id")]), "ulab": r.choice(["int", "str", "rev"]),
               "plab": r.choice(["int", "year"]), "dispatch": r.random() < 0.5, "index": r.random() < 0.3, "ties": r.random() < 0.2}
    for i, kw in enumerate([{"test_type": "nonsense"}, {"test_type": "fake_group"}, {"test_type": "fake_group", "unit": "u"}, {"test_type": "fake_group", "unit": "u", "fake_treatment_group": []},
                            {"test_type": "permutation"}, {"test_type": "leave_one_out"}]):
        yield {"id": "args%d" % i, "kind": "args", "kw": kw}


def ulabel(k, u):
    return u if k == "int" else "unit %s" % "abcdefgh"[u] if k == "str" else 90 - 7 * u


def record(c):
    if c["kind"] == "args":
        df = pd.DataFrame({"y": [1.0, 2, 3, 4, 5, 7, 6, 8], "d": [0, 0, 1, 1] * 2, "t": [0, 1] * 4, "u": [1, 1, 2, 2, 3, 3, 4, 4]})
        q = Quiet()
        q(dg.run_placebo_test, df, "y", "d", "t", **c["kw"])
        return [{"kind": "args", "what": str(c["kw"]), "raised": q.raised}]
    yn, dn, tn, un = c["names"]
    cells = c["cells"]
    per = lambda t: t if c["plab"] == "int" else 2000 + 2 * t
    unit, pi = [u for u, _ in cells], [t for _, t in cells]
    y = [round(v) for v in c["y"]] if c["ties"] else c["y"]
    kind = c["kind"]
    binary = kind in ("perm", "loo") or (kind == "all" and c["np"] == 2)
    df = pd.DataFrame({yn: fls(y), dn: [int(u in c["tu"]) for u in unit], un: [ulabel(c["ulab"], u) for u in unit],
                       tn: [int(t >= c["cut"]) if binary else per(t) for t in pi]})
    if c["index"]:
        df.index = range(50, 50 + len(df))
    kw = {"robust": c["robust"]}
    if c["cluster"]:
        kw["cluster"] = un
    postper = [t for t in range(c["np"]) if t >= c["cut"]]
    if c["on"] and not binary:
        postper = c["on"]
        c = dict(c, posts=True)
    posts = [per(t) for t in postper] if c["posts"] else None
    q = Quiet()
    ev = {"kind": kind, "y": fls(y), "d": fls(df[dn]), "unit": unit, "per": pi, "post": fls([int(t >= c["cut"]) for t in pi]), "posts": postper if c["posts"] else [],
          "fake": c["fake"], "fakeunits": c["fakeunits"], "alpha": fl(c["alpha"]), "b": c["b"], "g": unit if c["cluster"] else [],
          "vkind": "cluster" if c["cluster"] else "hc1" if c["robust"] else "hom", "again": True, "warned": False, "res": "null"}
    fus = [ulabel(c["ulab"], u) for u in c["fakeunits"]]
    D = dg.run_placebo_test
    if kind == "timing":
        a = dict(fake_treatment_period=per(c["fake"]), post_periods=posts, alpha=c["alpha"], **kw)
        r = q(D, df, yn, dn, tn, test_type="fake_timing", **a) if c["dispatch"] else q(dg.placebo_timing_test, df, yn, dn, tn, **a)
    elif kind == "group":
        a = dict(post_periods=posts, alpha=c["alpha"], **kw)
        r = q(D, df, yn, dn, tn, unit=un, test_type="FAKE_group", fake_treatment_group=fus, **a) if c["dispatch"] else q(dg.placebo_group_test, df, yn, tn, un, fus, **a)
    elif kind == "perm":
        a = dict(n_permutations=c["b"], alpha=c["alpha"], seed=c["seed"], **kw)
        f = (lambda: D(df, yn, dn, tn, unit=un, test_type="permutation", **a)) if c["dispatch"] else (lambda: dg.permutation_test(df, yn, dn, tn, un, **a))
        r = q(f)
        ev["warned"] = any("permutations failed" in m for _, m in q.warnings)
        r2 = Quiet()(f)
        ev["again"] = (r is None) == (r2 is None) and (r is None or (repr(r.to_dict()) == repr(r2.to_dict()) and list(r.permutation_distribution) == list(r2.permutation_distribution)))
    elif kind == "loo":
        a = dict(alpha=c["alpha"], **kw)
        r = q(D, df, yn, dn, tn, unit=un, test_type="leave_one_out", **a) if c["dispatch"] else q(dg.leave_one_out_test, df, yn, dn, tn, un, **a)
        ev["warned"] = any("leave-one-out estimates failed" in m for _, m in q.warnings)
    else:
        return [battery(c, df, per, postper, kw)]
    ev["raised"], ev["msg"] = q.raised, q.raised + ": " + q.msg[:80]
    if r is not None:
        lo, hi = ci(r.conf_int)
        ev["res"] = {"effect": fl(r.placebo_effect), "se": fl(r.se), "t": fl(r.t_stat), "p": fl(r.p_value), "lo": lo, "hi": hi, "nobs": int(r.n_obs), "sig": bool(r.is_significant),
                     "alpha": fl(r.alpha), "orig": fl(r.original_effect), "origse": fl(r.original_se)}
        if kind == "timing":
            ev["res"]["fakeperiod"] = bool(r.fake_period == per(c["fake"])) and r.test_type == "fake_timing"
        if kind == "group":
            ev["res"]["fakegroup"] = r.fake_group == fus and r.test_type == "fake_group"
        if kind == "perm":
            ev["res"].update(draws=fls(r.permutation_distribution), nperm=int(r.n_permutations))
        if kind == "loo":
            back = {ulabel(c["ulab"], u): u for u in range(8)}
            e = sorted((back[k], fl(v)) for k, v in r.leave_one_out_effects.items())
            ev["res"].update(lo_units=[k for k, _ in e], lo_effects=[v for _, v in e])
    return [ev]


def show(x):
    if x is None or isinstance(x, dict):
        return "-"
    return repr(x.to_dict()) + repr(None if x.permutation_distribution is None else list(x.permutation_distribution)) + repr(x.leave_one_out_effects) + repr(x.alpha) + x.summary()


def battery(c, df, per, postper, kw):
    """run_all_placebo_tests against the single tests"""
    yn, dn, tn, un = c["names"]
    conv = (lambda t: int(t >= c["cut"])) if c["np"] == 2 else per
    pre = [conv(t) for t in range(c["np"]) if t not in postper]
    post = [conv(t) for t in postper]
    if c["np"] == 2:
        pre = [0, 1] if c["dispatch"] else [0]
    b = min(c["b"], 20)
    q = Quiet()
    out = q(dg.run_all_placebo_tests, df, yn, dn, tn, un, pre, post, n_permutations=b, alpha=c["alpha"], seed=c["seed"], **kw)
    ev = {"kind": "all", "raised": q.raised, "want": sorted(["fake_timing_%s" % p for p in pre[1:]] + ["leave_one_out", "permutation"]), "keys": sorted(out) if out is not None else [], "entries": []}
    for k, v in (out or {}).items():
        s = Quiet()
        if k == "permutation":
            d = s(dg.permutation_test, df, yn, dn, tn, un, n_permutations=b, alpha=c["alpha"], seed=c["seed"], **kw)
        elif k == "leave_one_out":
            d = s(dg.leave_one_out_test, df, yn, dn, tn, un, alpha=c["alpha"], **kw)
        else:
            p = [p for p in pre if "fake_timing_%s" % p == k][0]
            d = s(dg.placebo_timing_test, df, yn, dn, tn, p, post_periods=post, alpha=c["alpha"], **kw)
        err = isinstance(v, dict)
        ev["entries"].append({"key": k, "same": show(v) == show(d), "direct": s.raised + s.msg, "error": (v["error_type"] + v["error"]) if err else ""})
    return ev
