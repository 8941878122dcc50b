"""small helpers shared by the recorders"""
import random
import warnings

import numpy as np
import pandas as pd


class Quiet:
    """run a call of the code under test; keep the exception class and the warnings it issued"""

    def __init__(self):
        self.raised, self.msg, self.warnings = "", "", []

    def __call__(self, f, *a, **k):
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter("always")
            try:
                return f(*a, **k)
            except Exception as e:
                self.raised, self.msg = type(e).__name__, str(e)
                return None
            finally:
                self.warnings = [(x.category.__name__, str(x.message)) for x in w]


def fl(x):
    try:
        return float(x)
    except Exception:
        return float("nan")


def fls(xs):
    if isinstance(xs, pd.Series) and not isinstance(xs.dtype, np.dtype): xs = xs.to_numpy(dtype=object)
    a = np.asarray(xs)
    return [fl(x) for x in (a if a.dtype == object else a.astype(float)).ravel()]


def mat(m):
    return [[fl(x) for x in row] for row in np.asarray(m, dtype=float)]


def dy(rng, lo=-8, hi=8, q=4):
    """a small dyadic number"""
    return rng.randint(lo * q, hi * q) / q


def ci(c):
    try:
        return fl(c[0]), fl(c[1])
    except Exception:
        return float("nan"), float("nan")


def sub(rng, key):
    """independent deterministic generator"""
    return random.Random("%s|%s" % (rng, key))


def retype(df, r, cols, prob=0.35):
    """the same whole numbers stored otherwise"""
    df = df.copy()
    for c in cols:
        if c not in df.columns or r.random() > prob: continue
        v = df[c]
        if not pd.api.types.is_numeric_dtype(v) or pd.api.types.is_bool_dtype(v) or v.isna().any(): continue
        a = v.to_numpy(dtype=float)
        if not len(a) or not np.isfinite(a).all() or (a != np.round(a)).any(): continue
        lo, hi = a.min(), a.max()
        ok = ["int64", "float64", "float32", "Int64", "Float64"] + (["int8", "Int8"] if lo >= -128 and hi < 128 else []) + (["int16"] if abs(a).max() < 30000 else [])
        ok += (["uint16", "UInt32"] if lo >= 0 and hi < 65000 else []) + (["uint8", "UInt8"] if lo >= 0 and hi < 256 else [])
        df[c] = v.astype(r.choice(ok))
    return df
