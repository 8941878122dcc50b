import random
import numpy as np
import pandas as pd
import runs
import vh
from du import *

SPEC = "P24_Presentation"
RULE = ("every analysis of the library run on a base data set and again after changes of its presentation (row order, index, extra and reordered columns, column names, unit labels, "
        "period labels, storage types, a second call); non-trivial when the base run answers")
CASE_TIMEOUT = 110

T = ["again", "rows", "index", "columns", "names", "units", "times", "types"]


def nontrivial(ev):
    return ev["raised"] == ""


def cost(c):
    return 30 if c["run"].startswith(("trop", "sa.boot")) else 4


def generate(tier, work):
    return [vh.generate("Presentation", "Presentation_gen.cfg", work)]


def opts(name, r):
    tr = runs.R[name]
    k = dict(nu=r.choice([16, 18])) if tr.get("big") else dict(nu=5, T=4) if tr.get("small") else {}
    if tr.get("xfix"): k.update(xvar=False, nu=r.choice([12, 14]))
    if tr.get("ant"): k["mincoh"] = 2
    if tr.get("gapsok") and r.random() < 0.4: k["gaps"] = r.randint(1, 4)
    if r.random() < 0.4:
        k["integer"] = True
        if r.random() < 0.5: k["lift"] = 150
    return k


def cases(tier, rng, scen):
    q = tier == "quick"
    chains = sorted((s["chain"] for s in scen["Presentation"]), key=str)
    chains = [c for c in chains if c]
    for n in runs.names():
        r = random.Random("P24/%s/%s" % (n, rng.random()))
        slow = n.startswith(("trop", "sa.boot"))
        k = (5 if slow else 12) if q else (24 if slow else 260)
        singles = [[t] for t in T]
        if slow and q: singles = r.sample(singles, 4)
        for i, ch in enumerate(singles + [r.choice(chains) for _ in range(max(0, k - len(singles)))]):
            yield {"id": "%s.%d" % (n, i), "run": n, "chain": ch, "seed": "%s/%d/%d" % (n, i, r.randrange(10 ** 9)), "o": opts(n, r)}


INTERNAL = ["_never_treated", "_rel_time", "y_demeaned", "x_demeaned", "y_dm", "x_dm", "_first_treat", "first_treat", "_outcome_change", "_fake_post", "_post", "_fake_treated", "_perm_treatment",
            "_treatment_post", "const", "ATT", "post_treat", "rel_time", "treated", "cohort", "_treated", "_y", "__index__", "level_0", "index", "_cell", "_subgroup", "_cluster", "_weights", "_ps"]
# names a user may well have; names beginning with an underscore and "const" (the intercept) are the code's own
WEIRD = ["ATT", "intercept", "a b", "d:post", "Treated", "index", "level_0", "value", "count", "mean", "size", "effect", "weight", "unit_id",
         "cohort", "relative_time", "first_treat", "treatment", "group", "outcome", "period", "state", "fe", "y_0", "var", "0", "x y", "T", "C", "Q", "W"]


def shown(df, chain, name, r):
    """the base data shown differently: (frame, World)"""
    tr = runs.R[name]
    df = df.copy()
    names, umap, tmap = {}, {}, {}
    for t in chain:
        if t == "rows":
            z = r.random()
            if z < 0.25: df = df.iloc[::-1]
            elif z < 0.5: df = df.sort_values([names.get("time", "time"), names.get("unit", "unit")]).pipe(lambda f: f)
            else: df = df.sample(frac=1, random_state=r.randrange(10 ** 6))
            if r.random() < 0.5: df = df.reset_index(drop=True)
        elif t == "index":
            z = r.choice(["shift", "dup", "str", "zero", "float", "date", "neg", "named", "multi"])
            n = len(df)
            if z == "shift": df.index = range(1000, 1000 + n)
            elif z == "dup": df.index = [i // 3 for i in range(n)]
            elif z == "str": df.index = ["r%d" % ((i * 7) % (n + 1)) for i in range(n)]
            elif z == "zero": df.index = [0] * n
            elif z == "float": df.index = [i / 2 for i in range(n)]
            elif z == "date": df.index = pd.date_range("2020-01-01", periods=n)
            elif z == "neg": df.index = range(n, 0, -1)
            elif z == "named": df.index = pd.Index([(i * 5) % n for i in range(n)], name="unit")
            else: df.index = pd.MultiIndex.from_arrays([[i % 3 for i in range(n)], list(range(n))])
            if z == "named": df.index.name = r.choice(["idx", "row"])
        elif t == "columns":
            df = df.copy()
            df["extra"] = np.nan
            df["junk"] = ["s%d" % (i % 5) for i in range(len(df))]
            df["obj"] = [None if i % 2 else [i] for i in range(len(df))]
            for w in r.sample(INTERNAL, 6):       # columns the code itself might want to add
                if w not in df.columns:
                    df[w] = [((i * 7) % 11) + 0.5 for i in range(len(df))] if r.random() < 0.6 else ["z"] * len(df)
            cols = list(df.columns)
            r.shuffle(cols)
            df = df[cols]
        elif t == "names":
            if r.random() < 0.4:       # the names exchanged among themselves
                p = list(runs.COLS)
                r.shuffle(p)
            else:
                p = r.sample(WEIRD, len(runs.COLS))
            new = dict(zip(runs.COLS, p))
            mine = {names.get(c, c) for c in runs.COLS}
            df = df[[c for c in df.columns if c in mine or c not in p]]
            df = df.rename(columns={names.get(c, c): "\0" + new[c] for c in runs.COLS}).rename(columns=lambda c: c[1:] if c.startswith("\0") else c)
            names = new
        elif t == "units" and not umap:
            c = names.get("unit", "unit")
            us = sorted(df[c].unique())
            z = r.choice(["str", "perm", "shift", "neg", "float", "tup", "mixed"])
            ids = list(us)
            r.shuffle(ids)
            if z == "str": umap = {int(u): "u%s" % v for u, v in zip(us, ids)}
            elif z == "perm": umap = {int(u): int(v) for u, v in zip(us, ids)}
            elif z == "shift": umap = {int(u): int(u) + 10 ** 6 for u in us}
            elif z == "neg": umap = {int(u): -int(u) - 1 for u in us}
            elif z == "float": umap = {int(u): float(v) + 0.5 for u, v in zip(us, ids)}
            elif z == "tup": umap = {int(u): "unit %s" % (chr(65 + int(v))) for u, v in zip(us, ids)}
            else: umap = {int(u): 10 ** int(v) for u, v in zip(us, ids)}
            df[c] = [umap[int(u)] for u in df[c]]
        elif t == "times" and not tmap and tr.get("timemap"):
            c, fc = names.get("time", "time"), names.get("ft", "ft")
            ts = sorted(df[c].unique())
            z = r.choice(["shift", "shift"] if tr["timemap"] == "shift" else ["shift", "gap", "str", "neg", "float"])
            s = r.choice([1, 2000, 7])
            if z == "shift": tmap = {int(t): int(t) + s for t in ts}
            elif z == "gap": tmap = {int(t): 10 * int(t) ** 2 + 3 for t in ts}
            elif z == "neg": tmap = {int(t): int(t) - 20 for t in ts}
            elif z == "float": tmap = {int(t): t / 2 for t in ts}
            else: tmap = {int(t): "p%02d" % t for t in ts}
            df[c] = [tmap[int(t)] for t in df[c]]
            if tr["kind"] == "stag":
                df[fc] = [0 if not f else tmap[int(f)] for f in df[fc]]
        elif t == "types":
            for c in runs.COLS:
                a = names.get(c, c)
                z = r.random()
                num = pd.api.types.is_numeric_dtype(df[a]) and not pd.api.types.is_bool_dtype(df[a])
                if not num: continue
                whole = bool((df[a] == df[a].round()).all())
                lo, hi = df[a].min(), df[a].max()
                if c in ("y", "x") and whole and z < 0.8: df[a] = df[a].astype(r.choice(["int64", "int32", "int16", "float32", "Int64", "Float64"] + (["uint8", "uint16", "UInt8"] if 0 <= lo and hi < 256 else []) + (["int8"] if -128 <= lo and hi < 128 else [])))
                elif c in ("y", "x") and z < 0.4: df[a] = df[a].astype(r.choice(["float32", "Float64"]))
                elif c in ("d", "post", "part", "dp", "late") and z < 0.7: df[a] = df[a].astype(r.choice(["bool", "float64", "int8", "uint8", "float32", "boolean", "Int64", "UInt8"]))
                elif c in ("time", "ft") and whole and df[a].abs().max() < 30000 and z < 0.75:
                    df[a] = df[a].astype(r.choice(["float64", "int32", "int16", "Int64"] + (["uint16", "uint32", "UInt16"] if lo >= 0 else []) + (["uint8"] if lo >= 0 and hi < 256 else []) + (["int8"] if -128 <= lo and hi < 128 else [])))
                elif c == "unit" and whole and z < 0.6: df[a] = df[a].astype(r.choice(["float64", "int64", "object", "Int64", "category"] + (["uint8"] if lo >= 0 and hi < 256 else [])))
                elif c == "region" and whole and z < 0.6: df[a] = df[a].astype(r.choice(["float64", "int8", "object", "str", "category", "uint8", "string"]))
        elif t == "again":
            np.random.seed(r.randrange(10 ** 6))
    return df, runs.World(names, umap, tmap)


def frame_state(df):
    """everything visible about a frame"""
    return [[str(c) for c in df.columns], [str(t) for t in df.dtypes], [str(i) for i in df.index], str(type(df.index)), [str(n) for n in df.index.names],
            [[str(v) for v in df.iloc[:, j].tolist()] for j in range(df.shape[1])], str(sorted(df.attrs.items()))]


def once(name, df, W):
    q = Quiet()
    before = frame_state(df)
    g0 = np.random.get_state()[1].tolist() + [np.random.get_state()[2]]
    outs = q(runs.R[name]["f"], df, W)
    g1 = np.random.get_state()[1].tolist() + [np.random.get_state()[2]]
    return outs or [], q.raised, frame_state(df) == before, g0 == g1


def record(c):
    r = random.Random("P24r" + c["seed"])
    tr = runs.R[c["run"]]
    df = runs.base(tr["kind"], c["seed"], **c["o"])
    runs.setup(df)
    a, ra, pa, ga = once(c["run"], df, runs.World())
    df2, W2 = shown(df, c["chain"], c["run"], r)
    b, rb, pb, gb = once(c["run"], df2, W2)
    return [{"run": c["run"], "chain": c["chain"], "raised": ra, "raised2": rb, "pure": pa, "pure2": pb, "global": ga and gb, "loose": bool(tr.get("loose")), "a": a, "b": b}]


def design(tier):
    return [("Presentation", "Presentation_design.cfg")]
